# ---- packing beside other goroutines that pack through the same stream
contract wpk.Package.PackData@shared(pkg, w, r, fkey)(ts, err)
  flag shared=pkg.FTT.mux
  shares sdata(w), spos(w), sout(w), spre(w), pkg.FTT.datsize
  volatile pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  keeps tabok(pkg.FTT.tsm)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0 && held(pkg.FTT.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: len(fullof(pkg.Workspace, fkey)) <= 65535
  requires streams: ival(w) != ival(r)
  modifies pkg.FTT.datsize, pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx), sdata(w), spos(w), sout(w), spre(w), spos(r)
  flag noframe
  ensures inv: tabok(pkg.FTT.tsm)
  ensures extent: err == nil ==> bytes(ts) == item3(locked(spos(w)), len(restof(old(sdata(r)), old(spos(r)))), fullof(pkg.Workspace, fkey))
  ensures content: err == nil ==> unlocked(sdata(w)) == over(locked(sdata(w)), locked(spos(w)), restof(old(sdata(r)), old(spos(r))))
  ensures next: err == nil ==> unlocked(spos(w)) == locked(spos(w)) + len(restof(old(sdata(r)), old(spos(r))))
  ensures counted: err == nil ==> unlocked(pkg.FTT.datsize) == (locked(pkg.FTT.datsize) + len(restof(old(sdata(r)), old(spos(r))))) % 18446744073709551616
  ensures recorded: err == nil ==> has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)) && vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))] == ts
  ensures others: err == nil && unlocked(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> keys(pkg.FTT.tsm) == unlocked(keys(pkg.FTT.tsm))
  ensures added: err == nil && !unlocked(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> keys(pkg.FTT.tsm) == cat(unlocked(keys(pkg.FTT.tsm)), unit(fullof(pkg.Workspace, fkey))) && vals(pkg.FTT.tsm) == cat(unlocked(vals(pkg.FTT.tsm)), unit(ts))
  ensures failed: err != nil ==> unlocked(pkg.FTT.datsize) == locked(pkg.FTT.datsize) && keys(pkg.FTT.tsm) == unlocked(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == unlocked(vals(pkg.FTT.tsm))
  ensures forward: sok(w) ==> unlocked(spos(w)) >= locked(spos(w))
  ensures kept: unlocked(sdata(w)) == locked(sdata(w)) || unlocked(spos(w)) <= len(unlocked(sdata(w))) && unlocked(sdata(w)) == over(locked(sdata(w)), locked(spos(w)), sub(unlocked(sdata(w)), locked(spos(w)), unlocked(spos(w))))
contract wpk.Package.PackFile@shared(pkg, w, file, fkey)(ts, err)
  flag inlines=wpk.Package.PackData hide=puttag,time12,item3
  flag shared=pkg.FTT.mux
  shares sdata(w), spos(w), sout(w), spre(w), pkg.FTT.datsize
  volatile pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx)
  keeps tabok(pkg.FTT.tsm)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0 && held(pkg.FTT.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: len(fullof(pkg.Workspace, fkey)) <= 65535
  requires streams: ival(w) != ival(file)
  modifies pkg.FTT.datsize, pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx), sdata(w), spos(w), sout(w), spre(w), spos(file)
  flag noframe
  ensures inv: tabok(pkg.FTT.tsm)
  ensures extent: err == nil ==> bytes(ts) == withb(withc(base(item3(locked(spos(w)), len(restof(old(sdata(file)), old(spos(file)))), fullof(pkg.Workspace, fkey)), tspec(finfo(file))), tspec(finfo(file))), tspec(finfo(file)))
  ensures content: err == nil ==> unlocked(sdata(w)) == over(locked(sdata(w)), locked(spos(w)), restof(old(sdata(file)), old(spos(file))))
  ensures next: err == nil ==> unlocked(spos(w)) == locked(spos(w)) + len(restof(old(sdata(file)), old(spos(file))))
  ensures counted: err == nil ==> unlocked(pkg.FTT.datsize) == (locked(pkg.FTT.datsize) + len(restof(old(sdata(file)), old(spos(file))))) % 18446744073709551616
  ensures recorded: err == nil ==> has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)) && vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))] == ts
  ensures failed: err != nil ==> unlocked(pkg.FTT.datsize) == locked(pkg.FTT.datsize) && keys(pkg.FTT.tsm) == unlocked(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == unlocked(vals(pkg.FTT.tsm))
  ensures forward: sok(w) ==> unlocked(spos(w)) >= locked(spos(w))
  ensures kept: unlocked(sdata(w)) == locked(sdata(w)) || unlocked(spos(w)) <= len(unlocked(sdata(w))) && unlocked(sdata(w)) == over(locked(sdata(w)), locked(spos(w)), sub(unlocked(sdata(w)), locked(spos(w)), unlocked(spos(w))))
# the sections in the order of the lock: section i writes R[i] where section i-1 stopped
rec posat(p Int, R Seq_Str, i Int) Int = if i <= 0 then p else posat(p, R, i - 1) + len(R[i-1])
rec dataat(D Str, p Int, R Seq_Str, i Int) Str = if i <= 0 then D else over(dataat(D, p, R, i - 1), posat(p, R, i - 1), R[i-1])
lemma posat_up(p Int, R Seq_Str, j Int, i Int)
  requires 0 <= j && j <= i && i <= len(R)
  ensures posat(p, R, j) <= posat(p, R, i)
  induct i
lemma dataat_len(D Str, p Int, R Seq_Str, i Int)
  requires 0 <= p && p <= len(D) && 0 <= i && i <= len(R)
  ensures posat(p, R, i) <= len(dataat(D, p, R, i)) && p <= posat(p, R, i)
  induct i
lemma extents(D Str, p Int, R Seq_Str, j Int, i Int)
  requires 0 <= p && p <= len(D) && 0 <= j && j < i && i <= len(R)
  ensures disjoint: posat(p, R, j) + len(R[j]) <= posat(p, R, i)
  ensures content: posat(p, R, j) + len(R[j]) <= len(dataat(D, p, R, i)) && sub(dataat(D, p, R, i), posat(p, R, j), posat(p, R, j) + len(R[j])) == R[j]
  induct i
  use posat_up dataat_len
prop C23
  roots wpk.Package.PackData@shared wpk.Package.PackFile@shared wpk.Package.PackData wpk.Package.PackFile
  lemmas extents posat_up dataat_len
