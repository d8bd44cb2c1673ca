# ---- what a tag set says of its file
rec numtag(B Str, t Int) Int = if tagok(B, t) then tagu(B, t) else 0
spec strtag(B Str, t Int) Str = if find(B, 0, t) >= 0 then tagstr(B, t) else ""
contract wpk.TagsetRaw.Pos(ts)(offset, size)
  ensures offset: offset == numtag(bytes(ts), 1)
  ensures size: size == numtag(bytes(ts), 2)
contract wpk.TagsetRaw.Path(ts)(r)
  ensures value: r == strtag(bytes(ts), 3)
contract wpk.TagsetRaw.Size(ts)(n)
  ensures value: n == s64(numtag(bytes(ts), 2))
# ---- readers over a part of something
extern bytes.NewReader(b)(r)
  ensures r != nil && fresh(r) && sdata(r) == bytes(b) && spos(r) == 0
extern io.NewSectionReader(r, off, n)(s)
  requires 0 <= off && 0 <= n && off + n <= len(sdata(r))
  ensures s != nil && fresh(s) && sdata(s) == sub(sdata(r), off, off + n) && spos(s) == 0
# files: content under a name, length as reported
uninterp fdata(name Str) Str
uninterp fopens(name Str) Bool
uninterp fsize(fi Iface) Int
uninterp finfo(f Iface) Iface
extern os.Open(name)(f, err)
  ensures err == nil ==> f != nil && fresh(f) && sdata(f) == fdata(name) && spos(f) == 0
  ensures err != nil ==> f == nil
  ensures fopens(name) ==> err == nil && sok(f)
  ensures len(fdata(name)) < 9223372036854775808
extern os.File.Stat(f)(fi, err)
  ensures err == nil ==> fi != nil && fsize(fi) == len(sdata(f))
  ensures sok(f) ==> err == nil
extern fs.File.Stat(f)(fi, err)
  ensures err == nil ==> fi == finfo(f)
  ensures err == nil ==> fi != nil && fsize(fi) == len(sdata(f))
  ensures sok(f) ==> err == nil
extern fs.FileInfo.Size(fi)(n)
  ensures n == fsize(fi) && 0 <= n
extern fs.File.Close(f)(err)
  ensures true
spec extent(B Str, D Str) Str = sub(D, numtag(B, 1), numtag(B, 1) + numtag(B, 2))
spec fitsin(B Str, n Int) Bool = numtag(B, 1) <= n && numtag(B, 2) <= n - numtag(B, 1)
contract bulk.NewSliceFile(bulk, ts)(f, err)
  ensures when: err == nil <==> fitsin(bytes(ts), len(bulk))
  ensures content: err == nil ==> f != nil && sdata(f.PkgReader) == extent(bytes(ts), bytes(bulk)) && spos(f.PkgReader) == 0
  ensures tags: err == nil ==> f.tags == ts
contract fsys.NewChunkFile(fpath, ts)(f, err)
  ensures inside: err == nil ==> fitsin(bytes(ts), len(fdata(fpath)))
  ensures succeeds: fopens(fpath) && fitsin(bytes(ts), len(fdata(fpath))) ==> err == nil
  ensures content: err == nil ==> f != nil && sdata(f.PkgReader) == extent(bytes(ts), fdata(fpath)) && spos(f.PkgReader) == 0
  ensures tags: err == nil ==> f.tags == ts
extern mmap.MapRegion(f, length, prot, flags, offset)(m, err)
  requires 0 < length && 0 <= offset && offset % 4096 == 0 && offset + length <= len(sdata(f))
  ensures err == nil ==> len(m) == length && bytes(m) == sub(sdata(f), offset, offset + length) && fresh(m)
  ensures err == nil ==> (forall k Int {cell(m, k)} :: off(m) <= k && k < off(m) + length ==> cell(m, k) == sdata(f)[offset + k - off(m)])
  ensures sok(f) ==> err == nil
contract mmap.NewMappedFile(fwpk, ts)(f, err)
  requires fwpk != nil
  ensures inside: err == nil ==> fitsin(bytes(ts), len(sdata(fwpk)))
  flag hide=numtag depth=1
  ensures succeeds: sok(fwpk) && fitsin(bytes(ts), len(sdata(fwpk))) ==> err == nil
  ensures content: err == nil ==> f != nil && sdata(f.PkgReader) == extent(bytes(ts), sdata(fwpk)) && spos(f.PkgReader) == 0
  ensures tags: err == nil ==> f.tags == ts
contract bulk.Tagger.OpenTagset(tgr, ts)(f, err)
  ensures when: err == nil <==> fitsin(bytes(ts), len(tgr.bulk))
  ensures content: err == nil ==> f != nil && sdata(as(f, "*bulk.SliceFile").PkgReader) == extent(bytes(ts), bytes(tgr.bulk))
contract fsys.Tagger.OpenTagset(tgr, ts)(f, err)
  ensures inside: err == nil ==> fitsin(bytes(ts), len(fdata(tgr.dpath)))
  ensures content: err == nil ==> f != nil && sdata(as(f, "*fsys.ChunkFile").PkgReader) == extent(bytes(ts), fdata(tgr.dpath))
contract mmap.Tagger.OpenTagset(tgr, ts)(f, err)
  requires tgr.fwpk != nil
  ensures inside: err == nil ==> fitsin(bytes(ts), len(sdata(tgr.fwpk)))
  ensures content: err == nil ==> f != nil && sdata(as(f, "*mmap.MappedFile").PkgReader) == extent(bytes(ts), sdata(tgr.fwpk))
# through any tagger: pdata is the data file behind it
uninterp pdata(t Iface) Str
uninterp topens(t Iface) Bool
extern wpk.Tagger.OpenTagset(t, ts)(f, err)
  ensures err == nil ==> f != nil && fresh(f) && sdata(f) == extent(bytes(ts), pdata(t)) && spos(f) == 0 && fitsin(bytes(ts), len(pdata(t)))
  ensures topens(t) && fitsin(bytes(ts), len(pdata(t))) ==> err == nil && sok(f)
contract wpk.Package.ReadFile(pkg, fkey)(r, err)
  requires pkg.FTT != nil
  requires free: held(pkg.FTT.tsm.mux) == 0
  requires inv: tabok(pkg.FTT.tsm)
  requires tagger: pkg.Tagger != nil
  requires size: small(pdata(pkg.Tagger))
  ensures known: err == nil ==> has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))
  ensures content: err == nil ==> bytes(r) == extent(bytes(vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))]), pdata(pkg.Tagger))
  ensures missing: !has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)) ==> err != nil && notexist(err)
  ensures reads: has(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey)) && topens(pkg.Tagger)
    && fitsin(bytes(vals(pkg.FTT.tsm)[get(pkg.FTT.tsm.idx, fullof(pkg.Workspace, fkey))]), len(pdata(pkg.Tagger))) ==> err == nil
prop C18
  roots bulk.NewSliceFile mmap.NewMappedFile fsys.NewChunkFile bulk.Tagger.OpenTagset mmap.Tagger.OpenTagset fsys.Tagger.OpenTagset wpk.Package.ReadFile
