# ---- environment patterns
spec isfirst(x Int) Bool = x == 95 || 65 <= x && x <= 90 || 97 <= x && x <= 122
spec isvar(x Int) Bool = isfirst(x) || 48 <= x && x <= 57
uninterp envhas(n Str) Bool
uninterp envval(n Str) Str
extern os.LookupEnv(k)(v, ok)
  ensures ok <==> envhas(k)
  ensures ok ==> v == envval(k)
# what a name stands for; a precondition of Envfmt tells it for its map
uninterp known(n Str) Bool
uninterp value(n Str) Str
rec vend(s Str, p Int) Int = if 0 <= p && p < len(s) && isvar(s[p]) then vend(s, p + 1) else p
spec pat1(s Str, i Int) Bool = s[i] == 36 && i + 1 < len(s) && isfirst(s[i+1])
spec pat2(s Str, i Int) Bool = s[i] == 36 && i + 3 < len(s) && s[i+1] == 123 && isfirst(s[i+2])
spec pat3(s Str, i Int) Bool = s[i] == 37 && i + 2 < len(s) && isfirst(s[i+1])
# a text is a row of steps: a pattern, the beginning of one that is not finished, or one other character
spec npos(s Str, i Int) Int = if pat2(s, i) then i + 2 else i + 1
spec pstop(s Str, i Int) Int = vend(s, npos(s, i) + 1)
spec closed(s Str, i Int) Bool = pat1(s, i) || (pat2(s, i) && pstop(s, i) < len(s) && s[pstop(s, i)] == 125) || (pat3(s, i) && pstop(s, i) < len(s) && s[pstop(s, i)] == 37)
spec nxt(s Str, i Int) Int = if pat1(s, i) then pstop(s, i) else if pat2(s, i) || pat3(s, i) then (if closed(s, i) then pstop(s, i) + 1 else pstop(s, i)) else i + 1
spec name(s Str, i Int) Str = sub(s, npos(s, i), pstop(s, i))
spec swap(s Str, i Int) Bool = closed(s, i) && known(name(s, i))
spec outp(s Str, i Int) Str = if swap(s, i) then value(name(s, i)) else sub(s, i, nxt(s, i))
rec expand(s Str, i Int) Str = if i < 0 || i >= len(s) then "" else cat(outp(s, i), expand(s, nxt(s, i)))
rec elen(s Str, i Int) Int = if i < 0 || i >= len(s) then 0 else len(outp(s, i)) + elen(s, nxt(s, i))
rec same(s Str, i Int) Bool = if i < 0 || i >= len(s) then true else !swap(s, i) && same(s, nxt(s, i))
rec track(T Str, d Int, s Str, p Int, q Int) Bool = 0 <= d && 0 <= p && p <= q && q <= len(s) && d + (q - p) <= len(T) && sub(T, d, d + (q - p)) == sub(s, p, q) && sub(T, d + (q - p), len(T)) == expand(s, q)
rec begins(E Str, T Str, j Int) Bool = 0 <= j && j <= len(E) && j <= len(T) && sub(E, 0, j) == sub(T, 0, j)
lemma vend_rng(s Str, p Int)
  requires 0 <= p && p <= len(s)
  ensures p <= vend(s, p) && vend(s, p) <= len(s)
  ensures vend(s, p) < len(s) ==> !isvar(s[vend(s, p)])
  induct len(s) - p
  trigger vend(s, p)
lemma vend_here(s Str, p Int)
  requires 0 <= p && p <= len(s) && (p == len(s) || !isvar(s[p]))
  ensures vend(s, p) == p
  trigger vend(s, p)
lemma vend_next(s Str, p Int, q Int)
  requires 0 <= p && p < len(s) && isvar(s[p]) && q == p + 1
  ensures vend(s, p) == vend(s, q)
  trigger vend(s, p), vend(s, q)
lemma expand_len(s Str, i Int)
  requires 0 <= i
  ensures len(expand(s, i)) == elen(s, i)
  induct len(s) - i
  use vend_rng
  trigger expand(s, i)
lemma expand_same(s Str, i Int)
  requires 0 <= i && i <= len(s) && same(s, i)
  ensures expand(s, i) == sub(s, i, len(s)) && elen(s, i) == len(s) - i
  ensures i == 0 ==> expand(s, i) == s
  induct len(s) - i
  use vend_rng
  trigger same(s, i), expand(s, i)
  trigger same(s, i), elen(s, i)
lemma elen_pos(s Str, i Int)
  requires 0 <= i && i <= len(s)
  ensures elen(s, i) >= 0
  ensures i == len(s) ==> elen(s, i) == 0 && same(s, i)
  ensures elen(s, len(s)) == 0 && same(s, len(s))
  trigger elen(s, i)
  induct len(s) - i
  use vend_rng
lemma tail(Z Str, X Str, Y Str)
  requires Z == cat(X, Y)
  ensures len(Z) == len(X) + len(Y)
  ensures sub(Z, len(X), len(Z)) == Y
  ensures sub(Z, 0, len(X)) == X
lemma subtail(T Str, a Int, b Int, c Int)
  requires 0 <= a && 0 <= b && a + b <= len(T) && c == a + b
  ensures sub(sub(T, a, len(T)), b, len(T) - a) == sub(T, c, len(T))
  ensures sub(sub(T, a, len(T)), 0, b) == sub(T, a, c)
lemma cut(T Str, a Int, X Str, Y Str)
  requires 0 <= a && a <= len(T) && sub(T, a, len(T)) == cat(X, Y)
  ensures len(T) == a + len(X) + len(Y)
  ensures sub(T, a + len(X), len(T)) == Y
  ensures sub(T, a, a + len(X)) == X
  use tail(sub(T, a, len(T)), X, Y)
  use subtail(T, a, len(X), a + len(X))
lemma splitcat(X Str, n Int, m Int)
  requires 0 <= n && n <= m && m <= len(X)
  ensures sub(X, 0, m) == cat(sub(X, 0, n), sub(X, n, m))
lemma glue0(X Str, Y Str, n Int, m Int)
  requires 0 <= n && n <= m && m <= len(X) && m <= len(Y) && sub(X, 0, n) == sub(Y, 0, n) && sub(X, n, m) == sub(Y, n, m)
  ensures sub(X, 0, m) == sub(Y, 0, m)
  use splitcat(X, n, m)
  use splitcat(Y, n, m)
lemma splitmid(X Str, k Int, n Int, m Int)
  requires 0 <= k && k <= n && n <= m && m <= len(X)
  ensures sub(X, k, m) == cat(sub(X, k, n), sub(X, n, m))
lemma track_start(T Str, d Int, s Str, p Int, q Int)
  requires d == 0 && p == 0 && q == 0 && T == expand(s, 0)
  ensures track(T, d, s, p, q)
  trigger track(T, d, s, p, q)
lemma track_end(T Str, d Int, s Str, p Int, q Int)
  requires track(T, d, s, p, q) && q == len(s)
  ensures len(T) == d + (q - p)
  trigger track(T, d, s, p, q)
lemma track_shift(T Str, d Int, s Str, p Int, q Int, e Int)
  requires track(T, d, s, p, q) && e == d + (q - p)
  ensures track(T, e, s, q, q)
  trigger track(T, d, s, p, q), track(T, e, s, q, q)
lemma track_keep(T Str, d Int, s Str, p Int, q Int, r Int)
  requires track(T, d, s, p, q) && q < len(s) && !swap(s, q) && r == nxt(s, q)
  ensures track(T, d, s, p, r)
  use cut(T, d + (q - p), outp(s, q), expand(s, nxt(s, q)))
  use splitmid(T, d, d + (q - p), d + (r - p))
  use splitmid(s, p, q, r)
  use vend_rng
lemma track_swap(T Str, d Int, s Str, q Int, e Int, r Int)
  requires track(T, d, s, q, q) && q < len(s) && swap(s, q) && r == nxt(s, q) && e == d + len(outp(s, q))
  ensures track(T, e, s, r, r) && sub(T, d, e) == outp(s, q)
  use cut(T, d, outp(s, q), expand(s, nxt(s, q)))
  use vend_rng
lemma begins_none(E Str, T Str, j Int)
  requires j == 0
  ensures begins(E, T, j)
  trigger begins(E, T, j)
lemma begins_more(E Str, F Str, T Str, d Int, e Int, V Str)
  requires begins(E, T, d) && d <= len(F) && (forall k Int {F[k]} :: 0 <= k && k < d ==> F[k] == E[k]) && sub(T, d, e) == V && e == d + len(V) && e <= len(F) && e <= len(T) && (forall k Int {V[k]} :: 0 <= k && k < len(V) ==> F[d + k] == V[k])
  ensures begins(F, T, e)
  use glue0(F, T, d, e)
  use glue0(E, T, d, d)
  use glue0(F, E, 0, d)
lemma begins_copy(E Str, F Str, T Str, d Int, s Str, p Int, q Int, e Int)
  requires begins(E, T, d) && track(T, d, s, p, q) && e == d + (q - p) && e <= len(F) && (forall k Int {F[k]} :: 0 <= k && k < d ==> F[k] == E[k]) && (forall k Int {F[d + k]} :: 0 <= k && k < q - p ==> F[d + k] == s[p + k])
  ensures begins(F, T, e)
  use begins_more(E, F, T, d, e, sub(s, p, q))
  trigger begins(E, T, d), begins(F, T, e), track(T, d, s, p, q)
lemma begins_same(E Str, T Str, m Int)
  requires E == T && m == len(T)
  ensures begins(E, T, m)
  trigger begins(E, T, m)
lemma begins_whole(E Str, T Str, m Int)
  requires begins(E, T, m) && m == len(E) && m == len(T)
  ensures E == T
lemma len_plain(s Str, i Int, j Int)
  requires 0 <= i && i < len(s) && !pat1(s, i) && !pat2(s, i) && !pat3(s, i) && j == i + 1
  ensures elen(s, i) == j - i + elen(s, j) && (same(s, i) <==> same(s, j))
  use vend_rng
  trigger elen(s, i), elen(s, j)
  trigger same(s, i), same(s, j)
lemma len_dollar(s Str, i Int, j Int)
  requires 0 <= i && i < len(s) && pat1(s, i) && j == vend(s, i + 2)
  ensures known(sub(s, i + 1, j)) ==> elen(s, i) == len(value(sub(s, i + 1, j))) + elen(s, j) && !same(s, i)
  ensures !known(sub(s, i + 1, j)) ==> elen(s, i) == j - i + elen(s, j) && (same(s, i) <==> same(s, j))
  use vend_rng
  trigger elen(s, i), elen(s, j)
  trigger same(s, i), same(s, j)
lemma len_brace(s Str, i Int, j Int)
  requires 0 <= i && i < len(s) && pat2(s, i) && vend(s, i + 3) < len(s) && s[vend(s, i + 3)] == 125 && j == vend(s, i + 3) + 1
  ensures known(sub(s, i + 2, j - 1)) ==> elen(s, i) == len(value(sub(s, i + 2, j - 1))) + elen(s, j) && !same(s, i)
  ensures !known(sub(s, i + 2, j - 1)) ==> elen(s, i) == j - i + elen(s, j) && (same(s, i) <==> same(s, j))
  use vend_rng
  trigger elen(s, i), elen(s, j)
  trigger same(s, i), same(s, j)
lemma len_nobrace(s Str, i Int, j Int)
  requires 0 <= i && i < len(s) && pat2(s, i) && j == vend(s, i + 3) && (j == len(s) || s[j] != 125)
  ensures elen(s, i) == j - i + elen(s, j) && (same(s, i) <==> same(s, j))
  use vend_rng
  trigger elen(s, i), elen(s, j)
  trigger same(s, i), same(s, j)
lemma len_percent(s Str, i Int, j Int)
  requires 0 <= i && i < len(s) && pat3(s, i) && vend(s, i + 2) < len(s) && s[vend(s, i + 2)] == 37 && j == vend(s, i + 2) + 1
  ensures known(sub(s, i + 1, j - 1)) ==> elen(s, i) == len(value(sub(s, i + 1, j - 1))) + elen(s, j) && !same(s, i)
  ensures !known(sub(s, i + 1, j - 1)) ==> elen(s, i) == j - i + elen(s, j) && (same(s, i) <==> same(s, j))
  use vend_rng
  trigger elen(s, i), elen(s, j)
  trigger same(s, i), same(s, j)
lemma len_nopercent(s Str, i Int, j Int)
  requires 0 <= i && i < len(s) && pat3(s, i) && j == vend(s, i + 2) && (j == len(s) || s[j] != 37)
  ensures elen(s, i) == j - i + elen(s, j) && (same(s, i) <==> same(s, j))
  use vend_rng
  trigger elen(s, i), elen(s, j)
  trigger same(s, i), same(s, j)
lemma keep_plain(T Str, d Int, s Str, p Int, i Int, j Int)
  requires track(T, d, s, p, i) && 0 <= i && i < len(s) && !pat1(s, i) && !pat2(s, i) && !pat3(s, i) && j == i + 1
  ensures track(T, d, s, p, j)
  use track_keep(T, d, s, p, i, j)
  use vend_rng
  trigger track(T, d, s, p, i), track(T, d, s, p, j)
lemma keep_dollar(T Str, d Int, s Str, p Int, i Int, j Int)
  requires track(T, d, s, p, i) && 0 <= i && i < len(s) && pat1(s, i) && j == vend(s, i + 2) && !known(sub(s, i + 1, j))
  ensures track(T, d, s, p, j)
  use track_keep(T, d, s, p, i, j)
  use vend_rng
  trigger track(T, d, s, p, i), track(T, d, s, p, j)
  trigger track(T, d, s, p, i), elen(s, j)
lemma swap_dollar(T Str, d Int, s Str, i Int, e Int, j Int)
  requires track(T, d, s, i, i) && 0 <= i && i < len(s) && pat1(s, i) && j == vend(s, i + 2) && known(sub(s, i + 1, j)) && e == d + len(value(sub(s, i + 1, j)))
  ensures track(T, e, s, j, j) && sub(T, d, e) == value(sub(s, i + 1, j))
  use track_swap(T, d, s, i, e, j)
  use vend_rng
  trigger track(T, d, s, i, i), track(T, e, s, j, j)
lemma keep_brace(T Str, d Int, s Str, p Int, i Int, j Int)
  requires track(T, d, s, p, i) && 0 <= i && i < len(s) && pat2(s, i) && vend(s, i + 3) < len(s) && s[vend(s, i + 3)] == 125 && j == vend(s, i + 3) + 1 && !known(sub(s, i + 2, j - 1))
  ensures track(T, d, s, p, j)
  use track_keep(T, d, s, p, i, j)
  use vend_rng
  trigger track(T, d, s, p, i), track(T, d, s, p, j)
lemma swap_brace(T Str, d Int, s Str, i Int, e Int, j Int)
  requires track(T, d, s, i, i) && 0 <= i && i < len(s) && pat2(s, i) && vend(s, i + 3) < len(s) && s[vend(s, i + 3)] == 125 && j == vend(s, i + 3) + 1 && known(sub(s, i + 2, j - 1)) && e == d + len(value(sub(s, i + 2, j - 1)))
  ensures track(T, e, s, j, j) && sub(T, d, e) == value(sub(s, i + 2, j - 1))
  use track_swap(T, d, s, i, e, j)
  use vend_rng
  trigger track(T, d, s, i, i), track(T, e, s, j, j)
lemma keep_nobrace(T Str, d Int, s Str, p Int, i Int, j Int)
  requires track(T, d, s, p, i) && 0 <= i && i < len(s) && pat2(s, i) && j == vend(s, i + 3) && (j == len(s) || s[j] != 125)
  ensures track(T, d, s, p, j)
  use track_keep(T, d, s, p, i, j)
  use vend_rng
  trigger track(T, d, s, p, i), track(T, d, s, p, j)
  trigger track(T, d, s, p, i), elen(s, j)
lemma keep_percent(T Str, d Int, s Str, p Int, i Int, j Int)
  requires track(T, d, s, p, i) && 0 <= i && i < len(s) && pat3(s, i) && vend(s, i + 2) < len(s) && s[vend(s, i + 2)] == 37 && j == vend(s, i + 2) + 1 && !known(sub(s, i + 1, j - 1))
  ensures track(T, d, s, p, j)
  use track_keep(T, d, s, p, i, j)
  use vend_rng
  trigger track(T, d, s, p, i), track(T, d, s, p, j)
lemma swap_percent(T Str, d Int, s Str, i Int, e Int, j Int)
  requires track(T, d, s, i, i) && 0 <= i && i < len(s) && pat3(s, i) && vend(s, i + 2) < len(s) && s[vend(s, i + 2)] == 37 && j == vend(s, i + 2) + 1 && known(sub(s, i + 1, j - 1)) && e == d + len(value(sub(s, i + 1, j - 1)))
  ensures track(T, e, s, j, j) && sub(T, d, e) == value(sub(s, i + 1, j - 1))
  use track_swap(T, d, s, i, e, j)
  use vend_rng
  trigger track(T, d, s, i, i), track(T, e, s, j, j)
lemma keep_nopercent(T Str, d Int, s Str, p Int, i Int, j Int)
  requires track(T, d, s, p, i) && 0 <= i && i < len(s) && pat3(s, i) && j == vend(s, i + 2) && (j == len(s) || s[j] != 37)
  ensures track(T, d, s, p, j)
  use track_keep(T, d, s, p, i, j)
  use vend_rng
  trigger track(T, d, s, p, i), track(T, d, s, p, j)
  trigger track(T, d, s, p, i), elen(s, j)
lemma value_dollar(E Str, F Str, T Str, d Int, s Str, i Int, e Int)
  requires track(T, d, s, i, i) && 0 <= i && i < len(s) && pat1(s, i) && known(sub(s, i + 1, vend(s, i + 2))) && e == d + len(value(sub(s, i + 1, vend(s, i + 2)))) && e <= len(F)
  requires begins(E, T, d) && (forall k Int {F[k]} :: 0 <= k && k < d ==> F[k] == E[k]) && (forall k Int {F[d + k]} :: 0 <= k && k < len(value(sub(s, i + 1, vend(s, i + 2)))) ==> F[d + k] == value(sub(s, i + 1, vend(s, i + 2)))[k])
  ensures begins(F, T, e)
  use track_swap(T, d, s, i, e, nxt(s, i))
  use begins_more(E, F, T, d, e, value(sub(s, i + 1, vend(s, i + 2))))
  use vend_rng
  trigger track(T, d, s, i, i), begins(F, T, e), begins(E, T, d)
lemma value_brace(E Str, F Str, T Str, d Int, s Str, i Int, e Int)
  requires track(T, d, s, i, i) && 0 <= i && i < len(s) && pat2(s, i) && vend(s, i + 3) < len(s) && s[vend(s, i + 3)] == 125 && known(sub(s, i + 2, vend(s, i + 3))) && e == d + len(value(sub(s, i + 2, vend(s, i + 3)))) && e <= len(F)
  requires begins(E, T, d) && (forall k Int {F[k]} :: 0 <= k && k < d ==> F[k] == E[k]) && (forall k Int {F[d + k]} :: 0 <= k && k < len(value(sub(s, i + 2, vend(s, i + 3)))) ==> F[d + k] == value(sub(s, i + 2, vend(s, i + 3)))[k])
  ensures begins(F, T, e)
  use track_swap(T, d, s, i, e, nxt(s, i))
  use begins_more(E, F, T, d, e, value(sub(s, i + 2, vend(s, i + 3))))
  use vend_rng
  trigger track(T, d, s, i, i), begins(F, T, e), begins(E, T, d)
lemma value_percent(E Str, F Str, T Str, d Int, s Str, i Int, e Int)
  requires track(T, d, s, i, i) && 0 <= i && i < len(s) && pat3(s, i) && vend(s, i + 2) < len(s) && s[vend(s, i + 2)] == 37 && known(sub(s, i + 1, vend(s, i + 2))) && e == d + len(value(sub(s, i + 1, vend(s, i + 2)))) && e <= len(F)
  requires begins(E, T, d) && (forall k Int {F[k]} :: 0 <= k && k < d ==> F[k] == E[k]) && (forall k Int {F[d + k]} :: 0 <= k && k < len(value(sub(s, i + 1, vend(s, i + 2)))) ==> F[d + k] == value(sub(s, i + 1, vend(s, i + 2)))[k])
  ensures begins(F, T, e)
  use track_swap(T, d, s, i, e, nxt(s, i))
  use begins_more(E, F, T, d, e, value(sub(s, i + 1, vend(s, i + 2))))
  use vend_rng
  trigger track(T, d, s, i, i), begins(F, T, e), begins(E, T, d)
spec from(mode Int, i Int, p1 Int) Int = if mode == 0 then i else if mode == 2 then p1 - 2 else p1 - 1
spec inpat(s Str, mode Int, i Int, p1 Int) Bool = 0 <= i && i <= len(s) && 0 <= mode && mode <= 3 && (mode > 0 ==> 1 <= p1 && p1 + 1 <= i && vend(s, p1 + 1) == vend(s, i)) && (mode == 1 ==> pat1(s, p1 - 1)) && (mode == 2 ==> 2 <= p1 && pat2(s, p1 - 2)) && (mode == 3 ==> pat3(s, p1 - 1))
contract util.Envfmt(fpath, envmap)(res)
  requires tables: forall x Int {util.VarChar[x]} :: 0 <= x && x < 256 ==> (util.VarChar[x] <==> isvar(x))
  requires tables: forall x Int {util.VarCharFirst[x]} :: 0 <= x && x < 256 ==> (util.VarCharFirst[x] <==> isfirst(x))
  requires names: forall k Str {known(k)} :: known(k) <==> envmap != nil && has(envmap, k) || envhas(k)
  requires values: forall k Str {value(k)} :: value(k) == (if envmap != nil && has(envmap, k) then get(envmap, k) else envval(k))
  requires small: elen(fpath, 0) < 1152921504606846976 && len(fpath) < 1152921504606846976
  flag hide=expand,elen,same,vend,track,begins houd=5 merge simple
  # the same text: lemma begins_whole
  ensures length: len(res) == elen(fpath, 0)
  ensures value: elen(fpath, len(fpath)) == 0 && len(res) == len(expand(fpath, 0)) && begins(res, expand(fpath, 0), len(expand(fpath, 0)))
  inv mode_ Int, i_ Int, p1_ Int :: inpat(fpath, mode_, i_, p1_)
  inv mode_ Int, i_ Int, p1_ Int, el_ Int :: el_ - (len(fpath) - from(mode_, i_, p1_)) + elen(fpath, from(mode_, i_, p1_)) == elen(fpath, 0) && elen(fpath, from(mode_, i_, p1_)) <= elen(fpath, 0)
  falls mode_ Int, i_ Int :: 2 * (len(fpath) - i_) + (if mode_ > 0 then 1 else 0)
  inv mode_ Int, i_ Int, p1_ Int, n_ Int :: 0 <= n_ && n_ <= from(mode_, i_, p1_) && (n_ == 0 ==> (same(fpath, from(mode_, i_, p1_)) <==> same(fpath, 0)))
  inv e_ Slice :: len(e_) == elen(fpath, 0)
  inv mode_ Int, i_ Int, p1_ Int, j_ Int, pc_ Int :: 0 <= j_ && 0 <= pc_ && pc_ <= from(mode_, i_, p1_) && (mode_ > 0 ==> pc_ == from(mode_, i_, p1_)) && j_ + (from(mode_, i_, p1_) - pc_) + elen(fpath, from(mode_, i_, p1_)) == elen(fpath, 0)
  inv mode_ Int, i_ Int, p1_ Int, j_ Int, pc_ Int :: track(expand(fpath, 0), j_, fpath, pc_, from(mode_, i_, p1_))
  inv mode_ Int, i_ Int, p1_ Int, j_ Int, e_ Slice :: elen(fpath, from(mode_, i_, p1_)) >= 0 && begins(bytes(e_), expand(fpath, 0), j_)
prop C14
  roots util.Envfmt
  lemmas vend_rng vend_here vend_next expand_len expand_same elen_pos tail subtail cut splitcat glue0 splitmid track_start track_end track_shift track_keep track_swap begins_none begins_more begins_copy begins_same begins_whole len_plain len_dollar len_brace len_nobrace len_percent len_nopercent keep_plain keep_dollar swap_dollar keep_brace swap_brace keep_nobrace keep_percent swap_percent keep_nopercent value_dollar value_brace value_percent
