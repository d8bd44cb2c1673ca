# ---- the insertion-ordered map (util/seqmap.go), as it is instantiated by the name table
spec tabok(m Any) Bool = m.idx != nil
  && (forall k Str {has(m.idx, k)} :: has(m.idx, k) ==> 0 <= get(m.idx, k) && get(m.idx, k) < len(m.seq) && cell(m.seq, key, off(m.seq) + get(m.idx, k)) == k)
  && (forall j Int {cell(m.seq, key, j)} :: off(m.seq) <= j && j < off(m.seq) + len(m.seq) ==> has(m.idx, cell(m.seq, key, j)) && get(m.idx, cell(m.seq, key, j)) == j - off(m.seq))
spec keys(m Any) Seq_Str = elems(m.seq, key)
spec vals(m Any) Seq_Slice = elems(m.seq, val)

# position of a name in a list of names
rec posof(C Seq_Str, k Str, i Int) Int = if i >= len(C) then (-1) else if C[i] == k then i else posof(C, k, i + 1)
lemma posof_at(C Seq_Str, k Str, i Int, p Int)
  requires 0 <= i && i <= p && p < len(C) && C[p] == k
  requires forall j Int {C[j]} :: i <= j && j < p ==> C[j] != k
  ensures posof(C, k, i) == p
  induct p - i
lemma posof_no(C Seq_Str, k Str, i Int)
  requires 0 <= i
  requires forall j Int {C[j]} :: i <= j && j < len(C) ==> C[j] != k
  ensures posof(C, k, i) == (-1)
  induct len(C) - i

contract util.SeqMap.Init(m, c)
  requires free: held(m.mux) == 0
  requires 0 <= c
  modifies m.seq, m.idx
  ensures empty: len(m.seq) == 0 && (forall k Str {has(m.idx, k)} :: !has(m.idx, k))
  ensures inv: tabok(m)
  ensures own: fresh(m.seq) && fresh(m.idx)
  alloc c
  flag underlock guarded=m.mux
contract util.SeqMap.Len(m)(n)
  requires free: held(m.mux) == 0
  ensures value: n == len(keys(m))
  flag underlock guarded=m.mux noalloc
contract util.SeqMap.Has(m, key)(ok)
  requires free: held(m.mux) == 0
  requires inv: tabok(m)
  ensures value: ok <==> has(m.idx, key)
  flag underlock guarded=m.mux noalloc
contract util.SeqMap.Peek(m, key)(ret, ok)
  requires free: held(m.mux) == 0
  requires inv: tabok(m)
  ensures flag: ok <==> has(m.idx, key)
  ensures value: ok ==> ret == vals(m)[get(m.idx, key)]
  ensures none: !ok ==> ret == nil
  flag underlock guarded=m.mux noalloc
contract util.SeqMap.Poke(m, key, val)
  requires free: held(m.mux) == 0
  requires inv: tabok(m)
  modifies m.seq, rows(m.seq), spare(m.seq), map(m.idx)
  ensures inv: tabok(m)
  ensures same: old(has(m.idx, key)) ==> keys(m) == old(keys(m)) && vals(m) == upd(old(vals(m)), old(get(m.idx, key)), val)
  ensures added: !old(has(m.idx, key)) ==> keys(m) == cat(old(keys(m)), unit(key)) && vals(m) == cat(old(vals(m)), unit(val))
  ensures last: !old(has(m.idx, key)) ==> get(m.idx, key) == old(len(m.seq))
  ensures dom: dom(m.idx) == store(old(dom(m.idx)), key, true)
  ensures own: vals(m)[get(m.idx, key)] == val
  ensures place: m.idx == old(m.idx) && (ref(m.seq) == old(ref(m.seq)) && off(m.seq) == old(off(m.seq)) && cap(m.seq) == old(cap(m.seq)) || fresh(m.seq))
  flag underlock guarded=m.mux
contract util.SeqMap.Push(m, key, val)(ok)
  requires free: held(m.mux) == 0
  requires inv: tabok(m)
  modifies m.seq, rows(m.seq), spare(m.seq), map(m.idx)
  ensures inv: tabok(m)
  ensures flag: ok <==> old(has(m.idx, key))
  ensures same: ok ==> keys(m) == old(keys(m)) && vals(m) == old(vals(m))
  ensures added: !ok ==> keys(m) == cat(old(keys(m)), unit(key)) && vals(m) == cat(old(vals(m)), unit(val))
  flag underlock guarded=m.mux
contract util.SeqMap.Pop(m)(key, val, ok)
  requires free: held(m.mux) == 0
  requires inv: tabok(m)
  modifies m.seq, map(m.idx)
  ensures inv: tabok(m)
  ensures flag: ok <==> old(len(m.seq)) > 0
  ensures last: ok ==> old(keys(m)) == cat(keys(m), unit(key)) && old(vals(m)) == cat(vals(m), unit(val))
  ensures none: !ok ==> keys(m) == old(keys(m)) && vals(m) == old(vals(m)) && key == "" && val == nil
  flag underlock guarded=m.mux
contract util.SeqMap.Delete(m, key)(ret, ok)
  requires free: held(m.mux) == 0
  requires inv: tabok(m)
  modifies m.seq, rows(m.seq), map(m.idx)
  ensures inv: tabok(m)
  ensures flag: ok <==> old(has(m.idx, key))
  ensures value: ok ==> ret == old(vals(m))[old(get(m.idx, key))]
  ensures removed: ok ==> keys(m) == cat(sub(old(keys(m)), 0, old(get(m.idx, key))), sub(old(keys(m)), old(get(m.idx, key)) + 1, old(len(m.seq))))
    && vals(m) == cat(sub(old(vals(m)), 0, old(get(m.idx, key))), sub(old(vals(m)), old(get(m.idx, key)) + 1, old(len(m.seq))))
  ensures none: !ok ==> keys(m) == old(keys(m)) && vals(m) == old(vals(m)) && ret == nil
  ensures dom: dom(m.idx) == store(old(dom(m.idx)), key, false)
  ensures pos: posof(old(keys(m)), key, 0) == (if ok then old(get(m.idx, key)) else (-1))
  use posof_at(old(keys(m)), key, 0, old(get(m.idx, key)))
  use posof_no(old(keys(m)), key, 0)
  ensures place: m.idx == old(m.idx) && ref(m.seq) == old(ref(m.seq)) && off(m.seq) == old(off(m.seq)) && cap(m.seq) == old(cap(m.seq))
  inv i Int :: 0 <= i && i <= len(m.seq)
    && (forall j Int {cell(m.seq, key, j)} :: off(m.seq) <= j && j < off(m.seq) + len(m.seq) ==> has(m.idx, cell(m.seq, key, j)) && get(m.idx, cell(m.seq, key, j)) == (if j - off(m.seq) < i then j - off(m.seq) else j - off(m.seq) + 1))
    && (forall k Str {has(m.idx, k)} :: has(m.idx, k) ==> 0 <= get(m.idx, k) && get(m.idx, k) <= len(m.seq) && get(m.idx, k) != i && cell(m.seq, key, off(m.seq) + (if get(m.idx, k) < i then get(m.idx, k) else get(m.idx, k) - 1)) == k)
  inv i Int :: dom(m.idx) == store(old(dom(m.idx)), key, false)
  flag underlock guarded=m.mux

# the visitor may do anything to the table; what it is called with is logged
contract util.SeqMap.Range.func(key, val)(more)
  requires live: vgo(0)
  requires free: held(m.mux) == 0
  modifies m.seq, m.idx, rows(old(m.seq)), spare(old(m.seq)), map(old(m.idx)), vkeys(0), vvals(0), vgo(0)
  flag underlock
  ensures vkeys(0) == cat(old(vkeys(0)), unit(key)) && vvals(0) == cat(old(vvals(0)), unit(val)) && (vgo(0) <==> more)
contract util.SeqMap.Range(m, f)
  requires free: held(m.mux) == 0
  requires vgo(0) && len(vkeys(0)) == 0 && len(vvals(0)) == 0
  modifies vkeys(0), vvals(0), vgo(0)
  inv i Int :: vkeys(0) == sub(old(keys(m)), 0, i + 1) && vvals(0) == sub(old(vals(m)), 0, i + 1) && vgo(0)
  ensures visits: vkeys(0) == sub(old(keys(m)), 0, len(vkeys(0))) && vvals(0) == sub(old(vals(m)), 0, len(vkeys(0)))
  ensures all: len(vkeys(0)) <= old(len(m.seq)) && (vgo(0) ==> len(vkeys(0)) == old(len(m.seq)))
  flag underlock guarded=m.mux
prop C07
  roots util.SeqMap.Init util.SeqMap.Len util.SeqMap.Has util.SeqMap.Peek util.SeqMap.Poke util.SeqMap.Push util.SeqMap.Pop util.SeqMap.Delete util.SeqMap.Range
prop C08
  roots util.SeqMap.Init util.SeqMap.Len util.SeqMap.Has util.SeqMap.Peek util.SeqMap.Poke util.SeqMap.Push util.SeqMap.Pop util.SeqMap.Delete util.SeqMap.Range
