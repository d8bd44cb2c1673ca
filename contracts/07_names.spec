# ---- names in a package: a name stands for the workspace joined with its slash form
spec fullof(w Str, k Str) Str = joined(w, slash(k))
spec withtag(B Str, t Int, X Str) Str = if find(B, 0, t) < 0 then cat(B, item(t, X)) else setpart(B, find(B, 0, t), X)
contract wpk.Package.GetTagset(pkg, fkey)(ts, ok)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  ensures flag: ok <==> has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))
  ensures value: ok ==> ts == vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))]
  ensures none: !ok ==> ts == nil
contract wpk.Package.HasTagset(pkg, fkey)(ok)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  ensures flag: ok <==> has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))
contract wpk.Package.SetTagset(pkg, fkey, ts)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  modifies pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures same: old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> keys(pkg.FTT.tsm) == old(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == upd(old(vals(pkg.FTT.tsm)), old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))), ts)
  ensures added: !old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> keys(pkg.FTT.tsm) == cat(old(keys(pkg.FTT.tsm)), unit(fullof(pkg.Workspace, fkey))) && vals(pkg.FTT.tsm) == cat(old(vals(pkg.FTT.tsm)), unit(ts))
  ensures last: !old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)) == old(len(pkg.FTT.tsm.seq))
  ensures dom: dom(pkg.FTT.tsm.idx) == store(old(dom(pkg.FTT.tsm.idx)), fullof(pkg.Workspace, fkey), true)
  ensures own: vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))] == ts
  ensures place: pkg.FTT.tsm.idx == old(pkg.FTT.tsm.idx) && (ref(pkg.FTT.tsm.seq) == old(ref(pkg.FTT.tsm.seq)) && off(pkg.FTT.tsm.seq) == old(off(pkg.FTT.tsm.seq)) && cap(pkg.FTT.tsm.seq) == old(cap(pkg.FTT.tsm.seq)) || fresh(pkg.FTT.tsm.seq))
spec keycut(S Seq_Str, i Int) Seq_Str = cat(sub(S, 0, i), sub(S, i + 1, len(S)))
spec valcut(S Seq_Slice, i Int) Seq_Slice = cat(sub(S, 0, i), sub(S, i + 1, len(S)))
contract wpk.Package.DelTagset(pkg, fkey)(ts, ok)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  modifies pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures flag: ok <==> old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)))
  ensures value: ok ==> ts == old(vals(pkg.FTT.tsm))[old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)))]
  ensures removed: ok ==> keys(pkg.FTT.tsm) == keycut(old(keys(pkg.FTT.tsm)), old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))))
    && vals(pkg.FTT.tsm) == valcut(old(vals(pkg.FTT.tsm)), old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))))
  ensures none: !ok ==> keys(pkg.FTT.tsm) == old(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == old(vals(pkg.FTT.tsm)) && ts == nil
  ensures dom: dom(pkg.FTT.tsm.idx) == store(old(dom(pkg.FTT.tsm.idx)), fullof(pkg.Workspace, fkey), false)
  ensures pos: posof(old(keys(pkg.FTT.tsm)), fullof(pkg.Workspace, fkey), 0) == (if ok then old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) else (-1))
  ensures place: pkg.FTT.tsm.idx == old(pkg.FTT.tsm.idx) && ref(pkg.FTT.tsm.seq) == old(ref(pkg.FTT.tsm.seq)) && off(pkg.FTT.tsm.seq) == old(off(pkg.FTT.tsm.seq)) && cap(pkg.FTT.tsm.seq) == old(cap(pkg.FTT.tsm.seq))
contract wpk.Package.Rename(pkg, fkey1, fkey2)(err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: len(fullof(pkg.Workspace, fkey2)) <= 65535
  modifies pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures when: err == nil <==> old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey1))) && !old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey2)))
  ensures noeffect: err != nil ==> keys(pkg.FTT.tsm) == old(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == old(vals(pkg.FTT.tsm))
  ensures names: err == nil ==> keys(pkg.FTT.tsm) == cat(keycut(old(keys(pkg.FTT.tsm)), old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey1)))), unit(fullof(pkg.Workspace, fkey2)))
  ensures others: err == nil ==> sub(vals(pkg.FTT.tsm), 0, len(pkg.FTT.tsm.seq) - 1) == valcut(old(vals(pkg.FTT.tsm)), old(get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey1))))
  ensures moved: err == nil ==> len(pkg.FTT.tsm.seq) == old(len(pkg.FTT.tsm.seq)) && fresh(vals(pkg.FTT.tsm)[len(pkg.FTT.tsm.seq) - 1])
    && bytes(vals(pkg.FTT.tsm)[len(pkg.FTT.tsm.seq) - 1]) == withtag(old(bytes(vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey1))])), 3, fullof(pkg.Workspace, fkey2))
contract wpk.Package.PutAlias(pkg, fkey1, fkey2)(err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: len(fullof(pkg.Workspace, fkey2)) <= 65535
  modifies pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures when: err == nil <==> old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey1))) && !old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey2)))
  ensures noeffect: err != nil ==> keys(pkg.FTT.tsm) == old(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == old(vals(pkg.FTT.tsm))
  ensures names: err == nil ==> keys(pkg.FTT.tsm) == cat(old(keys(pkg.FTT.tsm)), unit(fullof(pkg.Workspace, fkey2)))
  ensures others: err == nil ==> sub(vals(pkg.FTT.tsm), 0, len(pkg.FTT.tsm.seq) - 1) == old(vals(pkg.FTT.tsm))
  ensures alias: err == nil ==> fresh(vals(pkg.FTT.tsm)[len(pkg.FTT.tsm.seq) - 1])
    && bytes(vals(pkg.FTT.tsm)[len(pkg.FTT.tsm.seq) - 1]) == withtag(old(bytes(vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey1))])), 3, fullof(pkg.Workspace, fkey2))
# ---- renaming a directory, file by file in table order: W workspace, o old and n new prefix
rec slashed(d Str) Str = if len(d) > 0 && d[len(d) - 1] != 47 then cat(d, "/") else d
rec wpre(W Str) Str = if W != "." && W != "" then cat(W, "/") else ""
spec rel(W Str, k Str) Str = sub(k, len(wpre(W)), len(k))
spec under(W Str, o Str, k Str) Bool = prefixed(k, wpre(W)) && prefixed(rel(W, k), o)
spec newof(W Str, o Str, n Str, k Str) Str = fullof(W, cat(n, sub(rel(W, k), len(o), len(rel(W, k)))))
spec nowof(W Str, k Str) Str = fullof(W, rel(W, k))
spec without(C Seq_Str, X Seq_Str, k Str) Seq_Str = if posof(C, k, 0) < 0 then X else keycut(X, posof(C, k, 0))
# number of files moved, and whether the run ends at a name already taken
rec rdcount(K Seq_Str, i Int, W Str, o Str, n Str, skip Bool, D Map[Str,Bool]) Int = if i >= len(K) then 0 else if !under(W, o, K[i]) then rdcount(K, i + 1, W, o, n, skip, D)
  else if D[newof(W, o, n, K[i])] then (if skip then rdcount(K, i + 1, W, o, n, skip, D) else 0)
  else 1 + rdcount(K, i + 1, W, o, n, skip, store(store(D, nowof(W, K[i]), false), newof(W, o, n, K[i]), true))
rec rdstop(K Seq_Str, i Int, W Str, o Str, n Str, D Map[Str,Bool]) Bool = if i >= len(K) then false else if !under(W, o, K[i]) then rdstop(K, i + 1, W, o, n, D)
  else if D[newof(W, o, n, K[i])] then true
  else rdstop(K, i + 1, W, o, n, store(store(D, nowof(W, K[i]), false), newof(W, o, n, K[i]), true))
# names and tags afterwards
rec rdkeys(K Seq_Str, i Int, W Str, o Str, n Str, skip Bool, D Map[Str,Bool], C Seq_Str) Seq_Str = if i >= len(K) then C else if !under(W, o, K[i]) then rdkeys(K, i + 1, W, o, n, skip, D, C)
  else if D[newof(W, o, n, K[i])] then (if skip then rdkeys(K, i + 1, W, o, n, skip, D, C) else C)
  else rdkeys(K, i + 1, W, o, n, skip, store(store(D, nowof(W, K[i]), false), newof(W, o, n, K[i]), true), cat(without(C, C, nowof(W, K[i])), unit(newof(W, o, n, K[i]))))
contract wpk.Package.RenameDir(pkg, olddir, newdir, skipexist)(count, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: forall j Int {keys(pkg.FTT.tsm)[j]} :: 0 <= j && j < len(pkg.FTT.tsm.seq) ==> len(newof(pkg.Workspace, slashed(olddir), slashed(newdir), keys(pkg.FTT.tsm)[j])) <= 65535
  modifies pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures count: count == rdcount(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace, slashed(olddir), slashed(newdir), skipexist, old(dom(pkg.FTT.tsm.idx)))
  ensures fails: err != nil <==> !skipexist && rdstop(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace, slashed(olddir), slashed(newdir), old(dom(pkg.FTT.tsm.idx)))
  ensures names: keys(pkg.FTT.tsm) == rdkeys(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace, slashed(olddir), slashed(newdir), skipexist, old(dom(pkg.FTT.tsm.idx)), old(keys(pkg.FTT.tsm)))
  flag inlines=wpk.Package.Enum,util.SeqMap.Range
  flag depth=1 hide=slash merge
  inv :: tabok(pkg.FTT.tsm)
  inv :: held(pkg.FTT.tsm.mux) == 0
  inv :: pkg.FTT.tsm.idx == old(pkg.FTT.tsm.idx) && (ref(pkg.FTT.tsm.seq) == old(ref(pkg.FTT.tsm.seq)) && off(pkg.FTT.tsm.seq) == old(off(pkg.FTT.tsm.seq)) && cap(pkg.FTT.tsm.seq) == old(cap(pkg.FTT.tsm.seq)) || fresh(pkg.FTT.tsm.seq))
  inv e Iface :: !skipexist ==> e == nil
  inv i Int, n Int :: n + rdcount(old(keys(pkg.FTT.tsm)), i + 1, pkg.Workspace, slashed(olddir), slashed(newdir), skipexist, dom(pkg.FTT.tsm.idx)) == rdcount(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace, slashed(olddir), slashed(newdir), skipexist, old(dom(pkg.FTT.tsm.idx)))
  inv i Int :: rdkeys(old(keys(pkg.FTT.tsm)), i + 1, pkg.Workspace, slashed(olddir), slashed(newdir), skipexist, dom(pkg.FTT.tsm.idx), keys(pkg.FTT.tsm)) == rdkeys(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace, slashed(olddir), slashed(newdir), skipexist, old(dom(pkg.FTT.tsm.idx)), old(keys(pkg.FTT.tsm)))
  inv i Int :: !skipexist ==> rdstop(old(keys(pkg.FTT.tsm)), i + 1, pkg.Workspace, slashed(olddir), slashed(newdir), dom(pkg.FTT.tsm.idx)) == rdstop(old(keys(pkg.FTT.tsm)), 0, pkg.Workspace, slashed(olddir), slashed(newdir), old(dom(pkg.FTT.tsm.idx)))
prop C12
  roots wpk.Package.Rename wpk.Package.PutAlias wpk.Package.RenameDir wpk.Package.DelTagset wpk.Package.SetTagset wpk.Package.GetTagset wpk.Package.HasTagset wpk.CopyTagset
