# ---- util: character mapping (strutil.go)
spec chslash(x Int) Int = if x == 92 then 47 else x
spec chlower(x Int) Int = if 65 <= x && x <= 90 then x + 32 else x
spec chupper(x Int) Int = if 97 <= x && x <= 122 then x - 32 else x
spec chkey(x Int) Int = if 65 <= x && x <= 90 then x + 32 else if x == 92 then 47 else x
specseq slash(s Str) Str len len(s) at i = chslash(s[i])
specseq lower(s Str) Str len len(s) at i = chlower(s[i])
specseq upper(s Str) Str len len(s) at i = chupper(s[i])
specseq keyof(s Str) Str len len(s) at i = chkey(s[i])
contract util.ToSlash(s)(r)
  ensures value: r == slash(s)
  inv b Slice, i Int :: forall k Int {b[k]} :: 0 <= k && k < len(s) ==> b[k] == (if k <= i then chslash(s[k]) else s[k])
contract util.ToLower(s)(r)
  ensures value: r == lower(s)
  inv b Slice, i Int :: forall k Int {b[k]} :: 0 <= k && k < len(s) ==> b[k] == (if k <= i then chlower(s[k]) else s[k])
contract util.ToUpper(s)(r)
  ensures value: r == upper(s)
  inv b Slice, i Int :: forall k Int {b[k]} :: 0 <= k && k < len(s) ==> b[k] == (if k <= i then chupper(s[k]) else s[k])
contract util.ToKey(s)(r)
  ensures value: r == keyof(s)
  inv b Slice, i Int :: forall k Int {b[k]} :: 0 <= k && k < len(s) ==> b[k] == (if k <= i then chkey(s[k]) else s[k])
extern os.IsPathSeparator(c)(r)
  ensures r <==> c == 47
spec joined(d Str, b Str) Str = if d == "" || d == "." then b else if b == "" || b == "." then d
  else if d[len(d)-1] == 47 && b[0] == 47 then cat(d, sub(b, 1, len(b)))
  else if d[len(d)-1] == 47 || b[0] == 47 then cat(d, b) else cat(d, "/", b)
contract util.JoinPath(dir, base)(r)
  ensures value: r == joined(dir, base)
contract util.JoinFilePath(dir, base)(r)
  ensures value: r == joined(dir, base)
# ---- base name: between the last separator and the first dot after it
rec bstart(s Str, i Int) Int = if i <= 0 then 0 else if s[i-1] == 92 || s[i-1] == 47 then i else bstart(s, i - 1)
rec dotat(s Str, p Int) Int = if p >= len(s) then len(s) else if s[p] == 46 then p else dotat(s, p + 1)
contract util.PathName(fpath)(r)
  ensures value: r == sub(fpath, bstart(fpath, len(fpath)), dotat(fpath, bstart(fpath, len(fpath))))
  inv i Int, j Int :: bstart(fpath, len(fpath)) == bstart(fpath, i + 1) && j == dotat(fpath, i + 1)
lemma bstart_rng(s Str, i Int)
  requires i <= len(s)
  ensures 0 <= bstart(s, i) && (i >= 0 ==> bstart(s, i) <= i)
  induct i
lemma dotat_rng(s Str, p Int)
  requires 0 <= p && p <= len(s)
  ensures p <= dotat(s, p) && dotat(s, p) <= len(s)
  induct len(s) - p
# what the two positions mean
lemma bmean(s Str, i Int, k Int)
  requires 0 <= i && i <= len(s) && 0 <= k
  ensures sep: bstart(s, i) > 0 ==> s[bstart(s, i) - 1] == 47 || s[bstart(s, i) - 1] == 92
  ensures none: bstart(s, i) <= k && k < i ==> s[k] != 47 && s[k] != 92
  induct i
lemma dmean(s Str, p Int, k Int)
  requires 0 <= p && p <= len(s)
  ensures dot: dotat(s, p) < len(s) ==> s[dotat(s, p)] == 46
  ensures none: p <= k && k < dotat(s, p) ==> s[k] != 46
  induct len(s) - p

# ---- workspace prefix (wpk.go)
spec prefixed(s Str, p Str) Bool = len(p) <= len(s) && sub(s, 0, len(p)) == p
extern strings.HasPrefix(s, prefix)(r)
  ensures r <==> prefixed(s, prefix)
spec trimmed(w Str, k Str) Str = if w == "." || w == "" then k else if !prefixed(k, w) then ""
  else if len(k) == len(w) || (len(k) == len(w) + 1 && k[len(w)] == 47) then "." else if k[len(w)] != 47 then "" else sub(k, len(w) + 1, len(k))
contract wpk.Package.FullPath(pkg, fkey)(r)
  ensures value: r == joined(pkg.Workspace, fkey)
contract wpk.Package.TrimPath(pkg, fkey)(r)
  ensures value: r == trimmed(pkg.Workspace, fkey)
lemma trim_join(w Str, k Str)
  requires len(k) > 0 && k[0] != 47
  requires w == "" || w[len(w) - 1] != 47
  ensures trimmed(w, joined(w, k)) == k
# one separator between two chunks
lemma join_sep(d Str, b Str)
  requires len(d) > 0 && len(b) > 0 && d != "." && b != "."
  ensures one: (len(d) < 2 || d[len(d)-2] != 47 || d[len(d)-1] != 47) ==> joined(d, b) == cat(if d[len(d)-1] == 47 then sub(d, 0, len(d)-1) else d, "/", if b[0] == 47 then sub(b, 1, len(b)) else b)
prop C13
  roots util.ToSlash util.ToLower util.ToUpper util.ToKey util.JoinPath util.JoinFilePath util.PathName wpk.Package.FullPath wpk.Package.TrimPath
  lemmas trim_join join_sep bmean dmean bstart_rng dotat_rng
