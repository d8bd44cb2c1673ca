# ---- tag sets as byte strings: tag id (2), length (2), content
spec tend(B Str, p Int) Int = p + 4 + le16(B, p + 2)
spec full(B Str, p Int) Bool = 0 <= p && p + 4 <= len(B) && tend(B, p) <= len(B)
# where scanning from p stops: at the end of the string when it consists of whole tags
rec stop(B Str, p Int) Int = if full(B, p) then stop(B, tend(B, p)) else p
# first tag with the given id at or after p, -1 if none
rec find(B Str, p Int, t Int) Int = if full(B, p) then (if le16(B, p) == t then p else find(B, tend(B, p), t)) else (-1)
rec cnt(B Str, p Int) Int = if full(B, p) then 1 + cnt(B, tend(B, p)) else 0
spec wf(B Str) Bool = stop(B, 0) == len(B)
spec content(B Str, q Int) Str = sub(B, q + 4, tend(B, q))

contract wpk.TagsetRaw.Iterator(ts)(r)
  ensures start: r.pos == 0 && r.tag == 0 && r.tid == 0
  ensures same: r.TagsetRaw == ts
  flag inline
contract wpk.TagsetIterator.Reset(tsi)
  modifies tsi.tid, tsi.pos, tsi.tag
  ensures start: tsi.pos == 0 && tsi.tag == 0 && tsi.tid == 0
  flag noalloc
contract wpk.TagsetIterator.TID(tsi)(r)
  ensures value: r == tsi.tid
  flag noalloc
contract wpk.TagsetIterator.Next(tsi)(ok)
  requires 0 <= tsi.pos
  modifies tsi.tid, tsi.pos, tsi.tag
  ensures step: ok <==> old(tsi.pos) < len(tsi.TagsetRaw) && full(bytes(tsi.TagsetRaw), old(tsi.pos))
  ensures piece: ok ==> tsi.tid == le16(tsi.TagsetRaw, old(tsi.pos)) && tsi.tag == old(tsi.pos) + 4 && tsi.pos == tend(bytes(tsi.TagsetRaw), old(tsi.pos)) && tsi.pos <= len(tsi.TagsetRaw)
  ensures none: !ok ==> tsi.tid == 0 && tsi.tag == old(tsi.tag)
  ensures passed: !ok && old(tsi.pos) >= len(tsi.TagsetRaw) ==> tsi.pos == old(tsi.pos)
  ensures broken: !ok && old(tsi.pos) < len(tsi.TagsetRaw) ==> tsi.pos > len(tsi.TagsetRaw)
  flag noalloc
contract wpk.TagsetIterator.Passed(tsi)(r)
  ensures value: r <==> tsi.pos == len(tsi.TagsetRaw)
  flag noalloc
contract wpk.TagsetIterator.Failed(tsi)(r)
  ensures value: r <==> tsi.pos > len(tsi.TagsetRaw)
  flag noalloc
contract wpk.TagsetIterator.Tag(tsi)(r)
  requires 0 <= tsi.tag && tsi.tag <= tsi.pos
  ensures failed: tsi.pos > len(tsi.TagsetRaw) ==> r == nil && len(r) == 0
  ensures piece: tsi.pos <= len(tsi.TagsetRaw) ==> bytes(r) == sub(bytes(tsi.TagsetRaw), tsi.tag, tsi.pos) && ref(r) == ref(tsi.TagsetRaw) && off(r) == off(tsi.TagsetRaw) + tsi.tag
  flag noalloc
contract wpk.TagsetIterator.TagLen(tsi)(r)
  requires 0 <= tsi.tag && tsi.tag <= tsi.pos
  ensures value: r == (if tsi.pos > len(tsi.TagsetRaw) then 0 else tsi.pos - tsi.tag)
  flag noalloc

contract wpk.TagsetRaw.Num(ts)(n)
  ensures value: n == cnt(bytes(ts), 0)
  inv p Int, k Int :: k + cnt(bytes(ts), p) == cnt(bytes(ts), 0)
contract wpk.TagsetRaw.Has(ts, tid)(r)
  requires tid > 0
  ensures value: r <==> find(bytes(ts), 0, tid) >= 0
  inv p Int :: find(bytes(ts), 0, tid) == find(bytes(ts), p, tid)
contract wpk.TagsetRaw.Get(ts, tid)(r, ok)
  requires tid > 0
  ensures found: ok <==> find(bytes(ts), 0, tid) >= 0
  ensures value: ok ==> bytes(r) == content(bytes(ts), find(bytes(ts), 0, tid)) && full(bytes(ts), find(bytes(ts), 0, tid))
  ensures place: ok ==> ref(r) == ref(ts) && off(r) == off(ts) + find(bytes(ts), 0, tid) + 4
  ensures none: !ok ==> r == nil && len(r) == 0
  inv p Int :: find(bytes(ts), 0, tid) == find(bytes(ts), p, tid)

contract wpk.CopyTagset(ts)(r)
  ensures value: bytes(r) == bytes(ts)
  ensures copy: fresh(r)
spec item(t Int, V Str) Str = cat(le16(t), le16(len(V)), V)
spec setpart(B Str, q Int, V Str) Str = cat(sub(B, 0, q + 2), le16(len(V)), V, sub(B, tend(B, q), len(B)))
spec delpart(B Str, q Int) Str = cat(sub(B, 0, q), sub(B, tend(B, q), len(B)))

rec puttag(B Str, t Int, V Str) Str = cat(B, item(t, V))
contract wpk.TagsetRaw.Put(ts, tid, tag)(r)
  requires fits: len(tag) <= 65535
  modifies spare(ts)
  ensures value: bytes(r) == cat(bytes(ts), item(tid, old(bytes(tag))))
  ensures put: bytes(r) == puttag(old(bytes(ts)), tid, old(bytes(tag)))
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) == cap(ts) || fresh(r)
contract wpk.TagsetRaw.AddOk(ts, tid, tag)(r, ok)
  requires tid > 0 && len(tag) <= 65535
  modifies spare(ts)
  ensures flag: ok <==> old(find(bytes(ts), 0, tid)) < 0
  ensures added: ok ==> bytes(r) == cat(bytes(ts), item(tid, old(bytes(tag))))
  ensures kept: !ok ==> r == ts && bytes(r) == bytes(ts)
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) == cap(ts) || fresh(r)
  inv p Int :: find(bytes(ts), 0, tid) == find(bytes(ts), p, tid)
contract wpk.TagsetRaw.Add(ts, tid, tag)(r)
  requires tid > 0 && len(tag) <= 65535
  modifies spare(ts)
  ensures value: bytes(r) == (if find(bytes(ts), 0, tid) < 0 then cat(bytes(ts), item(tid, old(bytes(tag)))) else bytes(ts))
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) == cap(ts) || fresh(r)
# the new value may lie anywhere but over the header of the tag it replaces
contract wpk.TagsetRaw.SetOk(ts, tid, tag)(r, ok)
  requires tid > 0 && len(tag) <= 65535
  requires ref(tag) != ref(ts)
  modifies bytes(ts), spare(ts)
  ensures flag: ok <==> old(find(bytes(ts), 0, tid)) < 0
  ensures added: ok ==> bytes(r) == cat(old(bytes(ts)), item(tid, bytes(tag)))
  ensures replaced: !ok ==> bytes(r) == setpart(old(bytes(ts)), old(find(bytes(ts), 0, tid)), bytes(tag))
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) <= cap(ts) || fresh(r)
  inv p Int :: find(bytes(ts), 0, tid) == find(bytes(ts), p, tid)
contract wpk.TagsetRaw.Set(ts, tid, tag)(r)
  requires tid > 0 && len(tag) <= 65535
  requires ref(tag) != ref(ts)
  modifies bytes(ts), spare(ts)
  ensures value: bytes(r) == (if old(find(bytes(ts), 0, tid)) < 0 then cat(old(bytes(ts)), item(tid, bytes(tag))) else setpart(old(bytes(ts)), old(find(bytes(ts), 0, tid)), bytes(tag)))
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) <= cap(ts) || fresh(r)
contract wpk.TagsetRaw.DelOk(ts, tid)(r, ok)
  requires tid > 0
  modifies bytes(ts), spare(ts)
  ensures flag: ok <==> old(find(bytes(ts), 0, tid)) >= 0
  ensures removed: ok ==> bytes(r) == delpart(old(bytes(ts)), old(find(bytes(ts), 0, tid)))
  ensures kept: !ok ==> r == ts && bytes(r) == old(bytes(ts))
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) <= cap(ts) || fresh(r)
  inv p Int :: find(bytes(ts), 0, tid) == find(bytes(ts), p, tid)
contract wpk.TagsetRaw.Del(ts, tid)(r)
  requires tid > 0
  modifies bytes(ts), spare(ts)
  ensures value: bytes(r) == (if old(find(bytes(ts), 0, tid)) < 0 then old(bytes(ts)) else delpart(old(bytes(ts)), old(find(bytes(ts), 0, tid))))
  ensures place: ref(r) == ref(ts) && off(r) == off(ts) && cap(r) <= cap(ts) || fresh(r)

# ---- what the byte-level results mean for lookup, order and count
lemma find_ge(B Str, p Int, u Int)
  requires 0 <= p
  ensures find(B, p, u) < 0 || find(B, p, u) >= p && full(B, find(B, p, u)) && le16(B, find(B, p, u)) == u
  ensures find(B, p, u) >= -1
  induct len(B) - p + 4
  trigger find(B, p, u)
lemma suf_find(P Str, X Str, k Int, u Int)
  requires 0 <= k && k <= len(X)
  ensures find(cat(P, X), len(P) + k, u) == (if find(X, k, u) < 0 then (-1) else find(X, k, u) + len(P))
  ensures cnt(cat(P, X), len(P) + k) == cnt(X, k)
  ensures stop(cat(P, X), len(P) + k) == len(P) + stop(X, k)
  induct len(X) - k
lemma pre_find(B Str, C Str, p Int, q Int, t Int, u Int)
  requires 0 <= p && p <= q && find(B, p, t) == q && q <= len(C) && (forall i Int {C[i]} {B[i]} :: 0 <= i && i < q ==> C[i] == B[i])
  ensures find(C, p, u) == (if 0 <= find(B, p, u) && find(B, p, u) < q then find(B, p, u) else find(C, q, u))
  ensures cnt(C, p) - cnt(C, q) == cnt(B, p) - cnt(B, q)
  ensures stop(C, p) == stop(C, q)
  induct q - p
  use find_ge
lemma app_find(B Str, E Str, p Int, u Int)
  requires 0 <= p && p <= len(B) && stop(B, p) == len(B)
  ensures find(cat(B, E), p, u) == (if find(B, p, u) >= 0 then find(B, p, u) else find(cat(B, E), len(B), u))
  ensures cnt(cat(B, E), p) == cnt(B, p) + cnt(cat(B, E), len(B))
  ensures stop(cat(B, E), p) == stop(cat(B, E), len(B))
  induct len(B) - p
lemma item_find(t Int, V Str, u Int)
  requires 0 <= t && t < 65536 && len(V) < 65536
  ensures find(item(t, V), 0, u) == (if u == t then 0 else (-1))
  ensures cnt(item(t, V), 0) == 1 && stop(item(t, V), 0) == len(item(t, V))
  ensures content(item(t, V), 0) == V
lemma split(B Str, k Int)
  requires 0 <= k && k <= len(B)
  ensures cat(sub(B, 0, k), sub(B, k, len(B))) == B
lemma join4(a Str, b Str, c Str, d Str)
  ensures cat(a, cat(b, cat(c, d))) == cat(cat(a, cat(b, c)), d)
lemma after(S Str, q Int, n Int, u Int)
  requires full(S, q) && le16(S, q) != u && tend(S, q) == n
  ensures find(S, q, u) == find(S, n, u) && cnt(S, q) == 1 + cnt(S, n) && stop(S, q) == stop(S, n)
lemma set_shape(B Str, q Int, t Int, V Str)
  requires q >= 0 && full(B, q) && le16(B, q) == t && len(V) < 65536
  ensures full(setpart(B, q, V), q) && le16(setpart(B, q, V), q) == t && tend(setpart(B, q, V), q) == q + 4 + len(V)
  ensures content(setpart(B, q, V), q) == V
lemma tail_of(B Str, n Int, u Int)
  requires 0 <= n && n <= len(B)
  ensures find(B, n, u) == (if find(sub(B, n, len(B)), 0, u) < 0 then (-1) else find(sub(B, n, len(B)), 0, u) + n)
  ensures cnt(B, n) == cnt(sub(B, n, len(B)), 0) && stop(B, n) == n + stop(sub(B, n, len(B)), 0)
  use split(B, n)
  use suf_find(sub(B, 0, n), sub(B, n, len(B)), 0, u)
lemma set_tail(B Str, q Int, V Str, u Int)
  requires q >= 0 && full(B, q) && len(V) < 65536
  ensures find(setpart(B, q, V), q + 4 + len(V), u) == (if find(sub(B, tend(B, q), len(B)), 0, u) < 0 then (-1) else find(sub(B, tend(B, q), len(B)), 0, u) + q + 4 + len(V))
  ensures cnt(setpart(B, q, V), q + 4 + len(V)) == cnt(sub(B, tend(B, q), len(B)), 0)
  ensures stop(setpart(B, q, V), q + 4 + len(V)) == q + 4 + len(V) + stop(sub(B, tend(B, q), len(B)), 0)
  use join4(sub(B, 0, q + 2), le16(len(V)), V, sub(B, tend(B, q), len(B)))
  use suf_find(cat(sub(B, 0, q + 2), le16(len(V)), V), sub(B, tend(B, q), len(B)), 0, u)
lemma set_pre(B Str, q Int, V Str, t Int, u Int)
  requires q >= 0 && find(B, 0, t) == q && full(B, q) && len(V) < 65536
  ensures find(setpart(B, q, V), 0, u) == (if 0 <= find(B, 0, u) && find(B, 0, u) < q then find(B, 0, u) else find(setpart(B, q, V), q, u))
  ensures cnt(setpart(B, q, V), 0) - cnt(setpart(B, q, V), q) == cnt(B, 0) - cnt(B, q)
  ensures stop(setpart(B, q, V), 0) == stop(setpart(B, q, V), q)
  use pre_find(B, setpart(B, q, V), 0, q, t, u)
lemma del_pre(B Str, q Int, t Int, u Int)
  requires q >= 0 && find(B, 0, t) == q && full(B, q)
  ensures find(delpart(B, q), 0, u) == (if 0 <= find(B, 0, u) && find(B, 0, u) < q then find(B, 0, u) else find(delpart(B, q), q, u))
  ensures cnt(delpart(B, q), 0) - cnt(delpart(B, q), q) == cnt(B, 0) - cnt(B, q)
  ensures stop(delpart(B, q), 0) == stop(delpart(B, q), q)
  use pre_find(B, delpart(B, q), 0, q, t, u)
lemma same_pre(B Str, q Int, t Int, u Int)
  requires q >= 0 && find(B, 0, t) == q && full(B, q)
  ensures find(B, 0, u) == (if 0 <= find(B, 0, u) && find(B, 0, u) < q then find(B, 0, u) else find(B, q, u))
  ensures stop(B, 0) == stop(B, q)
  use pre_find(B, B, 0, q, t, u)
lemma del_tail(B Str, q Int, u Int)
  requires q >= 0 && full(B, q)
  ensures find(delpart(B, q), q, u) == (if find(sub(B, tend(B, q), len(B)), 0, u) < 0 then (-1) else find(sub(B, tend(B, q), len(B)), 0, u) + q)
  ensures cnt(delpart(B, q), q) == cnt(sub(B, tend(B, q), len(B)), 0)
  ensures stop(delpart(B, q), q) == q + stop(sub(B, tend(B, q), len(B)), 0)
  use suf_find(sub(B, 0, q), sub(B, tend(B, q), len(B)), 0, u)
# replacing a value: the other tags keep value and order
lemma set_meaning(B Str, q Int, t Int, V Str, u Int)
  requires q >= 0 && find(B, 0, t) == q && len(V) < 65536
  ensures self: find(setpart(B, q, V), 0, t) == q && content(setpart(B, q, V), q) == V
  ensures kept: u != t && find(B, 0, u) >= 0 && find(B, 0, u) < q ==> find(setpart(B, q, V), 0, u) == find(B, 0, u)
  ensures moved: u != t && find(B, 0, u) > q ==> find(setpart(B, q, V), 0, u) == find(B, 0, u) + len(setpart(B, q, V)) - len(B)
  ensures absent: u != t && find(B, 0, u) < 0 ==> find(setpart(B, q, V), 0, u) < 0
  ensures count: cnt(setpart(B, q, V), 0) == cnt(B, 0)
  ensures whole: wf(B) <==> wf(setpart(B, q, V))
  use find_ge(B, 0, t)
  use set_shape(B, q, t, V)
  use set_pre(B, q, V, t, u)
  use set_pre(B, q, V, t, t)
  use same_pre(B, q, t, u)
  use after(setpart(B, q, V), q, q + 4 + len(V), u)
  use after(B, q, tend(B, q), u)
  use tail_of(B, tend(B, q), u)
  use set_tail(B, q, V, u)
lemma del_meaning(B Str, q Int, t Int, u Int)
  requires q >= 0 && find(B, 0, t) == q
  ensures kept: u != t && find(B, 0, u) >= 0 && find(B, 0, u) < q ==> find(delpart(B, q), 0, u) == find(B, 0, u)
  ensures moved: u != t && find(B, 0, u) > q ==> find(delpart(B, q), 0, u) == find(B, 0, u) + len(delpart(B, q)) - len(B)
  ensures absent: u != t && find(B, 0, u) < 0 ==> find(delpart(B, q), 0, u) < 0
  ensures count: cnt(delpart(B, q), 0) == cnt(B, 0) - 1
  ensures whole: wf(B) <==> wf(delpart(B, q))
  use find_ge(B, 0, t)
  use del_pre(B, q, t, u)
  use same_pre(B, q, t, u)
  use after(B, q, tend(B, q), u)
  use tail_of(B, tend(B, q), u)
  use del_tail(B, q, u)
lemma put_meaning(B Str, t Int, V Str, u Int)
  requires wf(B) && 0 < t && t < 65536 && len(V) < 65536
  ensures kept: find(B, 0, u) >= 0 ==> find(cat(B, item(t, V)), 0, u) == find(B, 0, u)
  ensures new: find(B, 0, t) < 0 ==> find(cat(B, item(t, V)), 0, t) == len(B) && content(cat(B, item(t, V)), len(B)) == V
  ensures other: u != t && find(B, 0, u) < 0 ==> find(cat(B, item(t, V)), 0, u) < 0
  ensures count: cnt(cat(B, item(t, V)), 0) == cnt(B, 0) + 1
  ensures whole: wf(cat(B, item(t, V)))
  use app_find(B, item(t, V), 0, u)
  use app_find(B, item(t, V), 0, t)
  use suf_find(B, item(t, V), 0, u)
  use suf_find(B, item(t, V), 0, t)
  use item_find(t, V, u)
  use item_find(t, V, t)

prop C03
  roots wpk.TagsetRaw.Iterator wpk.TagsetIterator.Reset wpk.TagsetIterator.TID wpk.TagsetIterator.Next wpk.TagsetIterator.Passed
  roots wpk.TagsetIterator.Failed wpk.TagsetIterator.Tag wpk.TagsetIterator.TagLen wpk.TagsetRaw.Num wpk.TagsetRaw.Has wpk.TagsetRaw.Get
prop C02
  roots wpk.TagsetRaw.Num wpk.TagsetRaw.Has wpk.TagsetRaw.Get wpk.CopyTagset wpk.TagsetRaw.Put wpk.TagsetRaw.AddOk wpk.TagsetRaw.Add
  roots wpk.TagsetRaw.SetOk wpk.TagsetRaw.Set wpk.TagsetRaw.DelOk wpk.TagsetRaw.Del
  lemmas set_meaning del_meaning put_meaning app_find item_find set_others put_others del_others
