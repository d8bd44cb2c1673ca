# ---- packing: io.Copy reads to the end of the source and appends at the position of the destination
spec restof(D Str, p Int) Str = if p <= len(D) then sub(D, p, len(D)) else ""
extern io.Copy(dst, src)(n, err)
  modifies sdata(dst), spos(dst), sout(dst), spre(dst), spos(src)
  flag noalloc
  ensures 0 <= n && n <= len(restof(sdata(src), old(spos(src)))) && spos(dst) == old(spos(dst)) + n && 0 <= old(spos(dst)) && 0 <= old(spos(src))
  ensures sdata(dst) == over(old(sdata(dst)), old(spos(dst)), sub(restof(old(sdata(src)), old(spos(src))), 0, n))
  ensures sout(dst) == cat(old(sout(dst)), sub(restof(old(sdata(src)), old(spos(src))), 0, n))
  ensures err == nil ==> n == len(restof(old(sdata(src)), old(spos(src))))
  ensures sok(dst) && sok(src) ==> err == nil
  ensures err == nil && old(len(sout(dst))) == 0 && old(spos(src)) == 0 ==> sout(dst) == old(sdata(src))
  ensures old(quiet(dst)) ==> quiet(dst)
rec item3(o Int, n Int, k Str) Str = cat(item(1, uintenc(o, uintlen(o))), item(2, uintenc(n, uintlen(n))), item(3, k))
contract wpk.Package.BaseTagset(pkg, offset, size, fkey)(r)
  requires fits: len(fullof(pkg.Workspace, fkey)) <= 65535
  ensures value: bytes(r) == item3(offset, size, fullof(pkg.Workspace, fkey))
  ensures own: fresh(r)
contract wpk.Package.PackData(pkg, w, r, fkey)(ts, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0 && held(pkg.FTT.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: len(fullof(pkg.Workspace, fkey)) <= 65535
  requires streams: ival(w) != ival(r)
  modifies pkg.FTT.datsize, pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx), sdata(w), spos(w), sout(w), spre(w), spos(r)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures known: old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> err != nil && sdata(w) == old(sdata(w)) && sout(w) == old(sout(w)) && spos(w) == old(spos(w)) && spos(r) == old(spos(r))
  ensures noeffect: err != nil ==> keys(pkg.FTT.tsm) == old(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == old(vals(pkg.FTT.tsm)) && pkg.FTT.datsize == old(pkg.FTT.datsize)
  ensures written: err == nil ==> sdata(w) == over(old(sdata(w)), old(spos(w)), restof(old(sdata(r)), old(spos(r)))) && sout(w) == cat(old(sout(w)), restof(old(sdata(r)), old(spos(r))))
  ensures counted: err == nil ==> pkg.FTT.datsize == (old(pkg.FTT.datsize) + len(restof(old(sdata(r)), old(spos(r))))) % 18446744073709551616
  ensures entry: err == nil ==> bytes(ts) == item3(old(spos(w)), len(restof(old(sdata(r)), old(spos(r)))), fullof(pkg.Workspace, fkey))
  ensures own: err == nil ==> fresh(ts)
  ensures longer: err == nil ==> len(pkg.FTT.tsm.seq) == old(len(pkg.FTT.tsm.seq)) + 1
  ensures last: err == nil ==> get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)) == old(len(pkg.FTT.tsm.seq))
  ensures names: err == nil ==> keys(pkg.FTT.tsm) == cat(old(keys(pkg.FTT.tsm)), unit(fullof(pkg.Workspace, fkey)))
  ensures tags: err == nil ==> vals(pkg.FTT.tsm) == cat(old(vals(pkg.FTT.tsm)), unit(ts))
  ensures place: pkg.FTT.tsm.idx == old(pkg.FTT.tsm.idx) && (ref(pkg.FTT.tsm.seq) == old(ref(pkg.FTT.tsm.seq)) && off(pkg.FTT.tsm.seq) == old(off(pkg.FTT.tsm.seq)) && cap(pkg.FTT.tsm.seq) == old(cap(pkg.FTT.tsm.seq)) || fresh(pkg.FTT.tsm.seq))
  ensures dom: err == nil ==> dom(pkg.FTT.tsm.idx) == store(old(dom(pkg.FTT.tsm.idx)), fullof(pkg.Workspace, fkey), true)
  ensures hidden: old(quiet(w)) ==> spre(w) && !accepted(sdata(w)) && 64 <= len(sdata(w)) && (err == nil ==> 64 <= spos(w))
  ensures succeeds: sok(w) && sok(r) && !old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> err == nil
# times of a file as the operating system reports them: seconds, nanoseconds
uninterp tspec(fi Iface) Iface
uninterp msec(t Iface) Int
uninterp mns(t Iface) Int
uninterp asec(t Iface) Int
uninterp ans(t Iface) Int
uninterp csec(t Iface) Int
uninterp cns(t Iface) Int
uninterp bsec(t Iface) Int
uninterp bns(t Iface) Int
uninterp hasc(t Iface) Bool
uninterp hasb(t Iface) Bool
extern times.Get(fi)(t)
  ensures t != nil && t == tspec(fi)
extern times.Timespec.ModTime(t)(r)
  ensures tsec(r.wall, r.ext) == msec(t) && tnsec(r.wall, r.ext) == mns(t)
extern times.Timespec.AccessTime(t)(r)
  ensures tsec(r.wall, r.ext) == asec(t) && tnsec(r.wall, r.ext) == ans(t)
extern times.Timespec.ChangeTime(t)(r)
  requires hasc(t)
  ensures tsec(r.wall, r.ext) == csec(t) && tnsec(r.wall, r.ext) == cns(t)
extern times.Timespec.BirthTime(t)(r)
  requires hasb(t)
  ensures tsec(r.wall, r.ext) == bsec(t) && tnsec(r.wall, r.ext) == bns(t)
extern times.Timespec.HasChangeTime(t)(r)
  ensures r <==> hasc(t)
extern times.Timespec.HasBirthTime(t)(r)
  ensures r <==> hasb(t)
spec packed(w Any, r Any, k Str) Str = item3(spos(w), len(restof(sdata(r), spos(r))), k)
spec base(B Str, t Iface) Str = puttag(puttag(B, 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)))
spec withc(B Str, t Iface) Str = if hasc(t) then puttag(B, 7, time12(csec(t), cns(t))) else B
spec withb(B Str, t Iface) Str = if hasb(t) then puttag(B, 8, time12(bsec(t), bns(t))) else B
contract wpk.Package.PackFile(pkg, w, file, fkey)(ts, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0 && held(pkg.FTT.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires fits: len(fullof(pkg.Workspace, fkey)) <= 65535
  requires streams: ival(w) != ival(file)
  modifies pkg.FTT.datsize, pkg.FTT.tsm.seq, rows(pkg.FTT.tsm.seq), spare(pkg.FTT.tsm.seq), map(pkg.FTT.tsm.idx), sdata(w), spos(w), sout(w), spre(w), spos(file)
  ensures inv: tabok(pkg.FTT.tsm)
  ensures known: old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> err != nil && sdata(w) == old(sdata(w)) && sout(w) == old(sout(w)) && spos(w) == old(spos(w)) && spos(file) == old(spos(file))
  ensures noeffect: err != nil ==> keys(pkg.FTT.tsm) == old(keys(pkg.FTT.tsm)) && vals(pkg.FTT.tsm) == old(vals(pkg.FTT.tsm)) && pkg.FTT.datsize == old(pkg.FTT.datsize)
  ensures written: err == nil ==> sdata(w) == over(old(sdata(w)), old(spos(w)), restof(old(sdata(file)), old(spos(file)))) && sout(w) == cat(old(sout(w)), restof(old(sdata(file)), old(spos(file))))
  ensures counted: err == nil ==> pkg.FTT.datsize == (old(pkg.FTT.datsize) + len(restof(old(sdata(file)), old(spos(file))))) % 18446744073709551616
  ensures entry: err == nil ==> bytes(ts) == withb(withc(base(old(packed(w, file, fullof(pkg.Workspace, fkey))), tspec(finfo(file))), tspec(finfo(file))), tspec(finfo(file)))
  flag hide=puttag,time12,item3
  ensures names: err == nil ==> keys(pkg.FTT.tsm) == cat(old(keys(pkg.FTT.tsm)), unit(fullof(pkg.Workspace, fkey)))
  ensures tags: err == nil ==> vals(pkg.FTT.tsm) == cat(old(vals(pkg.FTT.tsm)), unit(ts))
  ensures place: pkg.FTT.tsm.idx == old(pkg.FTT.tsm.idx) && (ref(pkg.FTT.tsm.seq) == old(ref(pkg.FTT.tsm.seq)) && off(pkg.FTT.tsm.seq) == old(off(pkg.FTT.tsm.seq)) && cap(pkg.FTT.tsm.seq) == old(cap(pkg.FTT.tsm.seq)) || fresh(pkg.FTT.tsm.seq))
  ensures dom: err == nil ==> dom(pkg.FTT.tsm.idx) == store(old(dom(pkg.FTT.tsm.idx)), fullof(pkg.Workspace, fkey), true)
  ensures hidden: old(quiet(w)) ==> spre(w) && !accepted(sdata(w)) && 64 <= len(sdata(w)) && (err == nil ==> 64 <= spos(w))
  ensures succeeds: sok(w) && sok(file) && !old(has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))) ==> err == nil
prop C09
  roots wpk.Package.PackData wpk.Package.PackFile wpk.Package.BaseTagset
# ---- the recorded times are those read back
contract wpk.TagsetRaw.TagTime(ts, tid)(t, ok)
  requires tid > 0
  ensures found: ok <==> find(bytes(ts), 0, tid) >= 0 && (len(tagstr(bytes(ts), tid)) == 8 || len(tagstr(bytes(ts), tid)) == 12)
  ensures ms: ok && len(tagstr(bytes(ts), tid)) == 8 ==> unixms(t) == s64(le64(tagstr(bytes(ts), tid), 0)) && tnsec(t.wall, t.ext) % 1000000 == 0
  ensures ns: ok && len(tagstr(bytes(ts), tid)) == 12 && le32(tagstr(bytes(ts), tid), 8) < 1000000000 ==> tsec(t.wall, t.ext) == s64(le64(tagstr(bytes(ts), tid), 0)) && tnsec(t.wall, t.ext) == le32(tagstr(bytes(ts), tid), 8)
contract wpk.TagsetRaw.ModTime(ts)(t)
  ensures ms: find(bytes(ts), 0, 5) >= 0 && len(tagstr(bytes(ts), 5)) == 8 ==> unixms(t) == s64(le64(tagstr(bytes(ts), 5), 0)) && tnsec(t.wall, t.ext) % 1000000 == 0
  ensures ns: find(bytes(ts), 0, 5) >= 0 && len(tagstr(bytes(ts), 5)) == 12 && le32(tagstr(bytes(ts), 5), 8) < 1000000000 ==> tsec(t.wall, t.ext) == s64(le64(tagstr(bytes(ts), 5), 0)) && tnsec(t.wall, t.ext) == le32(tagstr(bytes(ts), 5), 8)
contract wpk.TagsetRaw.AccessTime(ts)(t)
  ensures ms: find(bytes(ts), 0, 6) >= 0 && len(tagstr(bytes(ts), 6)) == 8 ==> unixms(t) == s64(le64(tagstr(bytes(ts), 6), 0)) && tnsec(t.wall, t.ext) % 1000000 == 0
  ensures ns: find(bytes(ts), 0, 6) >= 0 && len(tagstr(bytes(ts), 6)) == 12 && le32(tagstr(bytes(ts), 6), 8) < 1000000000 ==> tsec(t.wall, t.ext) == s64(le64(tagstr(bytes(ts), 6), 0)) && tnsec(t.wall, t.ext) == le32(tagstr(bytes(ts), 6), 8)
contract wpk.TagsetRaw.ChangeTime(ts)(t)
  ensures ms: find(bytes(ts), 0, 7) >= 0 && len(tagstr(bytes(ts), 7)) == 8 ==> unixms(t) == s64(le64(tagstr(bytes(ts), 7), 0)) && tnsec(t.wall, t.ext) % 1000000 == 0
  ensures ns: find(bytes(ts), 0, 7) >= 0 && len(tagstr(bytes(ts), 7)) == 12 && le32(tagstr(bytes(ts), 7), 8) < 1000000000 ==> tsec(t.wall, t.ext) == s64(le64(tagstr(bytes(ts), 7), 0)) && tnsec(t.wall, t.ext) == le32(tagstr(bytes(ts), 7), 8)
contract wpk.TagsetRaw.BirthTime(ts)(t)
  ensures ms: find(bytes(ts), 0, 8) >= 0 && len(tagstr(bytes(ts), 8)) == 8 ==> unixms(t) == s64(le64(tagstr(bytes(ts), 8), 0)) && tnsec(t.wall, t.ext) % 1000000 == 0
  ensures ns: find(bytes(ts), 0, 8) >= 0 && len(tagstr(bytes(ts), 8)) == 12 && le32(tagstr(bytes(ts), 8), 8) < 1000000000 ==> tsec(t.wall, t.ext) == s64(le64(tagstr(bytes(ts), 8), 0)) && tnsec(t.wall, t.ext) == le32(tagstr(bytes(ts), 8), 8)
contract wpk.TagsetRaw.HasChangeTime(ts)(r)
  ensures recorded: r <==> find(bytes(ts), 0, 7) >= 0
contract wpk.TagsetRaw.HasBirthTime(ts)(r)
  ensures recorded: r <==> find(bytes(ts), 0, 8) >= 0
lemma put_other(B Str, t Int, V Str, u Int)
  requires wf(B) && 0 < t && t < 65536 && len(V) < 65536 && u != t
  ensures find(puttag(B, t, V), 0, u) == find(B, 0, u)
  ensures find(B, 0, u) >= 0 ==> tagstr(puttag(B, t, V), u) == tagstr(B, u)
  ensures wf(puttag(B, t, V))
  use put_meaning(B, t, V, u)
lemma put_own(B Str, t Int, V Str)
  requires wf(B) && 0 < t && t < 65536 && len(V) < 65536 && find(B, 0, t) < 0
  ensures find(puttag(B, t, V), 0, t) >= 0 && tagstr(puttag(B, t, V), t) == V
  use put_meaning(B, t, V, t)
lemma time12_back(s Int, n Int)
  requires -9223372036854775808 <= s && s <= 9223372036854775807 && 0 <= n && n < 1000000000
  ensures len(time12(s, n)) == 12 && s64(le64(time12(s, n), 0)) == s && le32(time12(s, n), 8) == n
  use rt_time(s, n)
lemma times_back(B Str, t Iface)
  requires wf(B) && find(B, 0, 5) < 0 && find(B, 0, 6) < 0 && find(B, 0, 7) < 0 && find(B, 0, 8) < 0
  ensures modified: find(withb(withc(base(B, t), t), t), 0, 5) >= 0 && tagstr(withb(withc(base(B, t), t), t), 5) == time12(msec(t), mns(t))
  ensures accessed: find(withb(withc(base(B, t), t), t), 0, 6) >= 0 && tagstr(withb(withc(base(B, t), t), t), 6) == time12(asec(t), ans(t))
  ensures hasc: find(withb(withc(base(B, t), t), t), 0, 7) >= 0 <==> hasc(t)
  ensures changed: hasc(t) ==> tagstr(withb(withc(base(B, t), t), t), 7) == time12(csec(t), cns(t))
  ensures hasb: find(withb(withc(base(B, t), t), t), 0, 8) >= 0 <==> hasb(t)
  ensures born: hasb(t) ==> tagstr(withb(withc(base(B, t), t), t), 8) == time12(bsec(t), bns(t))
  use put_own(B, 5, time12(msec(t), mns(t)))
  use put_other(B, 5, time12(msec(t), mns(t)), 6)
  use put_other(B, 5, time12(msec(t), mns(t)), 7)
  use put_other(B, 5, time12(msec(t), mns(t)), 8)
  use put_own(puttag(B, 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)))
  use put_other(puttag(B, 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)), 5)
  use put_other(puttag(B, 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)), 7)
  use put_other(puttag(B, 5, time12(msec(t), mns(t))), 6, time12(asec(t), ans(t)), 8)
  use put_own(base(B, t), 7, time12(csec(t), cns(t)))
  use put_other(base(B, t), 7, time12(csec(t), cns(t)), 5)
  use put_other(base(B, t), 7, time12(csec(t), cns(t)), 6)
  use put_other(base(B, t), 7, time12(csec(t), cns(t)), 8)
  use put_own(withc(base(B, t), t), 8, time12(bsec(t), bns(t)))
  use put_other(withc(base(B, t), t), 8, time12(bsec(t), bns(t)), 5)
  use put_other(withc(base(B, t), t), 8, time12(bsec(t), bns(t)), 6)
  use put_other(withc(base(B, t), t), 8, time12(bsec(t), bns(t)), 7)
  hide puttag find wf tagstr
prop C22
  roots wpk.Package.PackFile wpk.TagsetRaw.TagTime wpk.TagsetRaw.ModTime wpk.TagsetRaw.AccessTime wpk.TagsetRaw.ChangeTime wpk.TagsetRaw.BirthTime wpk.TagsetRaw.HasChangeTime wpk.TagsetRaw.HasBirthTime wpk.TimeTag wpk.UnixmsTag wpk.TagRaw.TagTime
  lemmas times_back time12_back rt_time
