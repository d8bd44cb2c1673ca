# ---- packages glued together: the first one that holds a name counts
spec holds(u Any, k Int, f Str) Bool = has(cell(u.List, k).FTT.tsm.idx, fullof(cell(u.List, k).Workspace, f))
spec heldts(u Any, k Int, f Str) Slice = vals(cell(u.List, k).FTT.tsm)[get(cell(u.List, k).FTT.tsm.idx, fullof(cell(u.List, k).Workspace, f))]
spec inlist(u Any, k Int) Bool = off(u.List) <= k && k < off(u.List) + len(u.List)
spec unionok(u Any) Bool = (forall k Int {cell(u.List, k)} :: inlist(u, k) ==> cell(u.List, k) != nil && cell(u.List, k).FTT != nil && cell(u.List, k).Tagger != nil && held(cell(u.List, k).FTT.tsm.mux) == 0 && tabok(cell(u.List, k).FTT.tsm))
spec first(u Any, k Int, f Str) Bool = inlist(u, k) && holds(u, k, f) && (forall j Int {cell(u.List, j)} :: off(u.List) <= j && j < k ==> !holds(u, j, f))
contract wpk.Union.Stat(u, fpath)(fi, err)
  requires ok: unionok(u)
  flag hide=slash
  ensures first: forall k Int {cell(u.List, k)} :: first(u, k, fpath) ==> err == nil && unbox(fi, "wpk.TagsetRaw") == heldts(u, k, fpath)
  ensures missing: err != nil ==> notexist(err) && fi == nil
  ensures none: err != nil ==> (forall k Int {cell(u.List, k)} :: inlist(u, k) ==> !holds(u, k, fpath))
  inv i Int :: forall k Int {cell(u.List, k)} :: off(u.List) <= k && k <= off(u.List) + i ==> !holds(u, k, fpath)
contract wpk.Union.ReadFile(u, fpath)(r, err)
  requires ok: unionok(u)
  requires size: forall k Int {cell(u.List, k)} :: inlist(u, k) ==> small(pdata(cell(u.List, k).Tagger))
  flag hide=slash
  ghost q Int
  ensures missing: (forall k Int {cell(u.List, k)} :: inlist(u, k) ==> !holds(u, k, fpath)) ==> err != nil && notexist(err)
  ensures first: first(u, q, fpath) && err == nil ==> bytes(r) == old(extent(bytes(heldts(u, q, fpath)), pdata(cell(u.List, q).Tagger)))
  ensures reads: first(u, q, fpath) && topens(cell(u.List, q).Tagger) && fitsin(bytes(heldts(u, q, fpath)), len(pdata(cell(u.List, q).Tagger))) ==> err == nil
  inv i Int :: forall k Int {cell(u.List, k)} :: off(u.List) <= k && k <= off(u.List) + i ==> !holds(u, k, fpath)
extern strconv.ParseUint(s, base, bits)(n, err)
  ensures err == nil && bits == 32 ==> n < 4294967296
spec packname(u Any, d Str) Bool = len(u.List) > 0 && prefixed(joined(cell(u.List, off(u.List)).Workspace, slash(d)), "@pack/")
spec dirof(u Any, k Int, d Str) Bool = anyunder(keys(cell(u.List, k).FTT.tsm), 0, cell(u.List, k).Workspace, dirp(d))
spec noone(u Any, f Str) Bool = (forall k Int {cell(u.List, k)} :: inlist(u, k) ==> !holds(u, k, f))
spec nodir(u Any, d Str) Bool = (forall k Int {cell(u.List, k)} :: inlist(u, k) ==> !dirof(u, k, d))
contract wpk.Union.Open(u, dir)(f, err)
  requires ok: unionok(u)
  requires fits: forall k Int {cell(u.List, k)} :: inlist(u, k) ==> len(joined(cell(u.List, k).Workspace, slash(dir))) <= 65535 && len(joined(cell(u.List, k).Workspace, "@pack")) <= 65535
  ghost q Int
  flag hide=slash inlines=wpk.Package.Enum,util.SeqMap.Range merge depth=2 houd=12
  ensures file: !packname(u, dir) && first(u, q, slash(dir)) && err == nil ==> f != nil && spos(f) == 0 && sdata(f) == old(extent(bytes(heldts(u, q, slash(dir))), pdata(cell(u.List, q).Tagger)))
  ensures opens: !packname(u, dir) && first(u, q, slash(dir)) && topens(cell(u.List, q).Tagger) && fitsin(bytes(heldts(u, q, slash(dir))), len(pdata(cell(u.List, q).Tagger))) ==> err == nil
  ensures dir: !packname(u, dir) && inlist(u, q) && old(dirof(u, q, slash(dir))) && noone(u, slash(dir)) ==> err == nil && iskind(f, "*wpk.UnionDir")
  ensures missing: !packname(u, dir) && noone(u, slash(dir)) && nodir(u, slash(dir)) ==> err != nil && notexist(err)
  inv :: nolocks()
  inv i Int :: forall k Int {cell(u.List, k)} :: off(u.List) <= k && k <= off(u.List) + i ==> !holds(u, k, slash(dir))
  inv i Int :: forall k Int {cell(u.List, k)} :: off(u.List) <= k && k <= off(u.List) + i ==> !old(dirof(u, k, slash(dir)))
  inv i Int, o Int :: anyunder(keys(cell(u.List, off(u.List) + o + 1).FTT.tsm), i + 1, cell(u.List, off(u.List) + o + 1).Workspace, dirp(slash(dir))) == anyunder(keys(cell(u.List, off(u.List) + o + 1).FTT.tsm), 0, cell(u.List, off(u.List) + o + 1).Workspace, dirp(slash(dir)))
# ---- names of the packages one after another, each once: all of them, or those matching P
spec emits(A Bool, P Str, x Str) Bool = A || pmatch(P, x)
rec dk(K Seq_Str, i Int, W Str, A Bool, P Str, F Map[Str,Bool]) Seq_Str = if i >= len(K) then noseq else if prefixed(K[i], wpre(W)) && !F[rel(W, K[i])] then (if emits(A, P, rel(W, K[i])) then cat(unit(rel(W, K[i])), dk(K, i + 1, W, A, P, store(F, rel(W, K[i]), true))) else dk(K, i + 1, W, A, P, store(F, rel(W, K[i]), true))) else dk(K, i + 1, W, A, P, F)
rec dkset(K Seq_Str, i Int, W Str, F Map[Str,Bool]) Map[Str,Bool] = if i >= len(K) then F else if prefixed(K[i], wpre(W)) then dkset(K, i + 1, W, store(F, rel(W, K[i]), true)) else dkset(K, i + 1, W, F)
rec ukeys(N Map[Int,Seq_Str], W Map[Int,Str], k Int, hi Int, A Bool, P Str, F Map[Str,Bool]) Seq_Str = if k >= hi then noseq else cat(dk(N[k], 0, W[k], A, P, F), ukeys(N, W, k + 1, hi, A, P, dkset(N[k], 0, W[k], F)))
contract wpk.Union.AllKeys(u)(res)
  requires ok: unionok(u)
  ghost KN Map[Int,Seq_Str]
  ghost WN Map[Int,Str]
  requires names: forall k Int {cell(u.List, k)} :: inlist(u, k) ==> KN[k] == keys(cell(u.List, k).FTT.tsm) && WN[k] == cell(u.List, k).Workspace
  flag inlines=wpk.Package.Enum,util.SeqMap.Range merge depth=2 houd=12
  ensures all: bytes(res) == ukeys(KN, WN, off(u.List), off(u.List) + len(u.List), true, "", nonames)
  inv :: nolocks()
  inv i Int, R Slice, m GoMap :: cat(bytes(R), ukeys(KN, WN, off(u.List) + i + 1, off(u.List) + len(u.List), true, "", dom(m))) == ukeys(KN, WN, off(u.List), off(u.List) + len(u.List), true, "", nonames)
  inv i Int, o Int, R Slice, m GoMap :: cat(bytes(R), dk(KN[off(u.List) + o + 1], i + 1, WN[off(u.List) + o + 1], true, "", dom(m)), ukeys(KN, WN, off(u.List) + o + 2, off(u.List) + len(u.List), true, "", dkset(KN[off(u.List) + o + 1], i + 1, WN[off(u.List) + o + 1], dom(m)))) == ukeys(KN, WN, off(u.List), off(u.List) + len(u.List), true, "", nonames)
contract wpk.Union.Glob(u, pattern)(res, err)
  requires ok: unionok(u)
  ghost KN Map[Int,Seq_Str]
  ghost WN Map[Int,Str]
  requires names: forall k Int {cell(u.List, k)} :: inlist(u, k) ==> KN[k] == keys(cell(u.List, k).FTT.tsm) && WN[k] == cell(u.List, k).Workspace
  flag inlines=wpk.Package.Enum,util.SeqMap.Range merge depth=2 houd=12 hide=slash
  ensures bad: err != nil <==> pbad(slash(pattern))
  ensures all: err == nil ==> bytes(res) == ukeys(KN, WN, off(u.List), off(u.List) + len(u.List), false, slash(pattern), nonames)
  inv :: nolocks()
  inv i Int, R Slice, m GoMap :: cat(bytes(R), ukeys(KN, WN, off(u.List) + i + 1, off(u.List) + len(u.List), false, slash(pattern), dom(m))) == ukeys(KN, WN, off(u.List), off(u.List) + len(u.List), false, slash(pattern), nonames)
  inv i Int, o Int, R Slice, m GoMap :: cat(bytes(R), dk(KN[off(u.List) + o + 1], i + 1, WN[off(u.List) + o + 1], false, slash(pattern), dom(m)), ukeys(KN, WN, off(u.List) + o + 2, off(u.List) + len(u.List), false, slash(pattern), dkset(KN[off(u.List) + o + 1], i + 1, WN[off(u.List) + o + 1], dom(m)))) == ukeys(KN, WN, off(u.List), off(u.List) + len(u.List), false, slash(pattern), nonames)
# how often x stands among the first n
rec times(S Seq_Str, n Int, x Str) Int = if n <= 0 then 0 else if S[n - 1] == x then times(S, n - 1, x) + 1 else times(S, n - 1, x)
lemma times_pre(A Seq_Str, B Seq_Str, n Int, x Str)
  requires n <= len(A)
  ensures times(cat(A, B), n, x) == times(A, n, x)
  induct n
lemma times_cat(A Seq_Str, B Seq_Str, n Int, x Str)
  requires 0 <= n && n <= len(B)
  ensures times(cat(A, B), len(A) + n, x) == times(A, len(A), x) + times(B, n, x)
  induct n
  use times_pre(A, B, len(A), x)
# x is a name of the view of workspace W
rec inview(K Seq_Str, i Int, W Str, x Str) Bool = if i >= len(K) then false else if K[i] == cat(wpre(W), x) then true else inview(K, i + 1, W, x)
lemma relpre(k Str, W Str, x Str)
  ensures prefixed(k, wpre(W)) && rel(W, k) == x <==> k == cat(wpre(W), x)
lemma dkset_is(K Seq_Str, i Int, W Str, F Map[Str,Bool], x Str)
  requires 0 <= i
  ensures dkset(K, i, W, F)[x] <==> F[x] || inview(K, i, W, x)
  induct len(K) - i
  use relpre(K[i], W, x)
lemma dk_times(K Seq_Str, i Int, W Str, A Bool, P Str, F Map[Str,Bool], x Str)
  requires 0 <= i
  ensures times(dk(K, i, W, A, P, F), len(dk(K, i, W, A, P, F)), x) == (if emits(A, P, x) && !F[x] && inview(K, i, W, x) then 1 else 0)
  induct len(K) - i
  depth 2
  use relpre(K[i], W, x)
  use times_cat(unit(rel(W, K[i])), dk(K, i + 1, W, A, P, store(F, rel(W, K[i]), true)), len(dk(K, i + 1, W, A, P, store(F, rel(W, K[i]), true))), x)
rec uview(N Map[Int,Seq_Str], W Map[Int,Str], k Int, hi Int, x Str) Bool = if k >= hi then false else if inview(N[k], 0, W[k], x) then true else uview(N, W, k + 1, hi, x)
lemma ukeys_times(N Map[Int,Seq_Str], W Map[Int,Str], k Int, hi Int, A Bool, P Str, F Map[Str,Bool], x Str)
  ensures times(ukeys(N, W, k, hi, A, P, F), len(ukeys(N, W, k, hi, A, P, F)), x) == (if emits(A, P, x) && !F[x] && uview(N, W, k, hi, x) then 1 else 0)
  induct hi - k
  depth 2
  use dk_times(N[k], 0, W[k], A, P, F, x)
  use dkset_is(N[k], 0, W[k], F, x)
  use times_cat(dk(N[k], 0, W[k], A, P, F), ukeys(N, W, k + 1, hi, A, P, dkset(N[k], 0, W[k], F)), len(ukeys(N, W, k + 1, hi, A, P, dkset(N[k], 0, W[k], F))), x)
# ---- sub-directories of a union: the packages that have it, in order
rec subcount(N Map[Int,Seq_Str], W Map[Int,Str], k Int, lo Int, D Str) Int = if k <= lo then 0 else if anyunder(N[k - 1], 0, W[k - 1], D) then subcount(N, W, k - 1, lo, D) + 1 else subcount(N, W, k - 1, lo, D)
contract wpk.Union.Sub(u, dir)(r, err)
  requires ok: unionok(u)
  ghost KN Map[Int,Seq_Str]
  ghost WN Map[Int,Str]
  ghost q Int
  requires names: forall k Int {cell(u.List, k)} :: inlist(u, k) ==> KN[k] == keys(cell(u.List, k).FTT.tsm) && WN[k] == cell(u.List, k).Workspace
  flag hide=slash houd=12
  ensures when: err == nil <==> subcount(KN, WN, off(u.List) + len(u.List), off(u.List), subp(dir)) > 0
  ensures missing: err != nil ==> notexist(err) && r == nil
  ensures kind: err == nil ==> iskind(r, "*wpk.Union")
  ensures count: err == nil ==> len(as(r, "*wpk.Union").List) == subcount(KN, WN, off(u.List) + len(u.List), off(u.List), subp(dir))
  ensures each: err == nil && inlist(u, q) && anyunder(KN[q], 0, WN[q], subp(dir)) ==> cell(as(r, "*wpk.Union").List, off(as(r, "*wpk.Union").List) + subcount(KN, WN, q, off(u.List), subp(dir))).FTT == cell(u.List, q).FTT
  ensures tagger: err == nil && inlist(u, q) && anyunder(KN[q], 0, WN[q], subp(dir)) ==> cell(as(r, "*wpk.Union").List, off(as(r, "*wpk.Union").List) + subcount(KN, WN, q, off(u.List), subp(dir))).Tagger == cell(u.List, q).Tagger
  ensures views: err == nil && inlist(u, q) && anyunder(KN[q], 0, WN[q], subp(dir)) ==> cell(as(r, "*wpk.Union").List, off(as(r, "*wpk.Union").List) + subcount(KN, WN, q, off(u.List), subp(dir))).Workspace == joined(cell(u.List, q).Workspace, slash(dir))
  inv i Int, R Slice :: len(R) == subcount(KN, WN, off(u.List) + i + 1, off(u.List), subp(dir))
  inv i Int, R Slice :: off(u.List) <= q && q <= off(u.List) + i && anyunder(KN[q], 0, WN[q], subp(dir)) ==> subcount(KN, WN, q, off(u.List), subp(dir)) < len(R) && subcount(KN, WN, q, off(u.List), subp(dir)) >= 0
  inv i Int, R Slice :: off(u.List) <= q && q <= off(u.List) + i && anyunder(KN[q], 0, WN[q], subp(dir)) ==> cell(R, off(R) + subcount(KN, WN, q, off(u.List), subp(dir))).FTT == cell(u.List, q).FTT && cell(R, off(R) + subcount(KN, WN, q, off(u.List), subp(dir))).Tagger == cell(u.List, q).Tagger && cell(R, off(R) + subcount(KN, WN, q, off(u.List), subp(dir))).Workspace == joined(cell(u.List, q).Workspace, slash(dir)) && ref(cell(R, off(R) + subcount(KN, WN, q, off(u.List), subp(dir)))) <= top
prop C17
  roots wpk.Union.Stat wpk.Union.ReadFile wpk.Union.Open wpk.Union.AllKeys wpk.Union.Glob wpk.Union.Sub
  lemmas times_pre times_cat relpre dkset_is dk_times ukeys_times
prop C16
  roots wpk.FTT.OpenDir
