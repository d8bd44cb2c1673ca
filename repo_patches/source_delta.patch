From 31776de18f2a6640ad094ff191f47081887066cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 01/31] fix: TagsetRaw.SetOk overwrote following tags on longer
 value

With spare capacity the appended value was written over the suffix before
the suffix was appended again.
---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 115386f..69c87b3 100644
--- a/tagset.go
+++ b/tagset.go
@@ -319,7 +319,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	} else {
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
 		var suff = ts[tsi.pos:]
-		ts = append(ts[:tsi.tag], tag...)
+		ts = append(ts[:tsi.tag:tsi.tag], tag...) // clip capacity to keep suffix untouched
 		ts = append(ts, suff...)
 	}
 	return ts, false
-- 
2.43.0


From 00c6e0e5c07ca84fc94da321577f412dece0fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 02/31] fix: CheckTagset bounds test wrapped around on huge
 offset or size

---
 wpk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index a5cb640..6e814e6 100644
--- a/wpk.go
+++ b/wpk.go
@@ -344,11 +344,11 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	}
 
 	// check up offset and size
-	if uint64(offset) < ftt.datoffset || uint64(offset) > ftt.datoffset+ftt.datsize {
+	if uint64(offset) < ftt.datoffset || uint64(offset)-ftt.datoffset > ftt.datsize {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datsize-(uint64(offset)-ftt.datoffset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
-- 
2.43.0


From cfb7bcd8b28335278187667bcf617a9a0966af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 03/31] fix: CheckTagset compares names in the form they are
 stored

Names different only by slashes overwrote each other in the table.
---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 6e814e6..20e7ff8 100644
--- a/wpk.go
+++ b/wpk.go
@@ -330,7 +330,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
 		return
 	}
-	if ftt.tsm.Has(fkey) { // prevent same file from repeating
+	if ftt.tsm.Has(util.ToSlash(fkey)) { // prevent same file from repeating
 		err = &ErrTag{fs.ErrExist, fkey, TIDpath}
 		return
 	}
-- 
2.43.0


From b30a130f422b64fc953839249afe2792dbf9c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 04/31] fix: read integers from stream completely

io.Reader can return fewer bytes than asked without error.
---
 util/uintio.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
-- 
2.43.0


From 267efa6423e8713ea61edbe882b4c94c834ee675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 05/31] fix: read headers and tagsets from stream completely

Short reads left zeros in headers, tagsets and tags tables without an error.
---
 wpk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wpk.go b/wpk.go
index 20e7ff8..1addcc8 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -770,7 +770,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From d42e026e6e7431533c5f8c5f9b8fb1da3598e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 06/31] fix: FTT.Parse checks tagset bounds

Truncated or damaged tags table caused panic.
---
 wpk.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/wpk.go b/wpk.go
index 1addcc8..cab7da1 100644
--- a/wpk.go
+++ b/wpk.go
@@ -359,10 +359,19 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // Parse makes table from given byte slice.
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
+	var bl = int64(len(buf))
 	{
+		if n+PTStssize > bl {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if n+int64(tsl) > bl {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +387,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if n+PTStssize > bl {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +398,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if n+int64(tsl) > bl {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
-- 
2.43.0


From f67e4356df7e597bc1ef6b461fe322cfbc4ab9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 07/31] fix: OpenStream checks tags table placement before
 allocation

Damaged header caused panic or huge memory allocation.
---
 wpk.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wpk.go b/wpk.go
index cab7da1..49b74ee 100644
--- a/wpk.go
+++ b/wpk.go
@@ -542,6 +542,15 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// check up that tags table is inside of the stream
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if hdr.fttoffset > uint64(end) || hdr.fttsize > uint64(end)-hdr.fttoffset || hdr.fttcount > hdr.fttsize {
+		err = ErrSignFTT
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
 	if hdr.fttcount == 0 || hdr.fttsize == 0 {
-- 
2.43.0


From 72003be03e25d218e84bcec89d2e46d72572338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 08/31] fix: OpenStream reads package info of package without
 files

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 49b74ee..a560365 100644
--- a/wpk.go
+++ b/wpk.go
@@ -553,7 +553,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
+	if hdr.fttsize == 0 {
 		return
 	}
 	// go to file tags table start
-- 
2.43.0


From 910649ed0b621a179d39dc369b58c5fcad7ca04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 09/31] fix: GetPackageInfo does not read absent tags table

Splitted package without tags table yet has no info.
---
 wpk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wpk.go b/wpk.go
index a560365..4edfd2d 100644
--- a/wpk.go
+++ b/wpk.go
@@ -783,6 +783,9 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	if hdr.fttsize == 0 {
+		return // there is no tags table yet
+	}
 
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
-- 
2.43.0


From a34adee78d6c9be16c2fd6059d6980a1b97227ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 10/31] fix: ReadFile reads whole content and accepts empty
 files

---
 union.go | 2 +-
 wpk.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..c5de5ad 100644
--- a/union.go
+++ b/union.go
@@ -144,7 +144,7 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
+			_, err = io.ReadFull(f, buf)
 			return buf, err
 		}
 	}
diff --git a/wpk.go b/wpk.go
index 4edfd2d..316e1ea 100644
--- a/wpk.go
+++ b/wpk.go
@@ -748,7 +748,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
+		_, err = io.ReadFull(f, buf)
 		return buf, err
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
-- 
2.43.0


From 278566123b3dda7427fbdb9c4b65caee7650a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 11/31] fix: SeqMap.Pop takes exclusive lock to modify the map

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From e17907b1e3d4980c80ea8fdbb0583215869a8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 12/31] fix: AccessTime, ChangeTime, BirthTime read all time
 tag formats

Those times are stored in the same formats as modification time.
---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index 69c87b3..c4164e9 100644
--- a/tagset.go
+++ b/tagset.go
@@ -507,22 +507,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From 83567bb23dd25ec5018eedbf54f493a61581ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 13/31] fix: TableToTagset reports bad tag values

---
 luawpk/nametid.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..0d485c0 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
-- 
2.43.0


From 3a10f7e8c3c0f751360931c8c076911f3d4d239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 14/31] fix: write package header by single call

Ready signature written before the rest of header could leave a package
with stale offsets accepted as ready.
---
 wpk.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/wpk.go b/wpk.go
index 316e1ea..250c2a9 100644
--- a/wpk.go
+++ b/wpk.go
@@ -225,30 +225,17 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 
 // WriteTo writes header to stream as binary data of constant length.
 func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
-	}
-	n += 8
+	var buf [HeaderSize]byte
+	copy(buf[:], hdr.signature[:])
+	util.SetU64(buf[SignSize:], hdr.fttcount)
+	util.SetU64(buf[SignSize+8:], hdr.fttoffset)
+	util.SetU64(buf[SignSize+16:], hdr.fttsize)
+	util.SetU64(buf[SignSize+24:], hdr.datoffset)
+	util.SetU64(buf[SignSize+32:], hdr.datsize)
+	// single write prevents broken header with true signature
+	var m int
+	m, err = w.Write(buf[:])
+	n = int64(m)
 	return
 }
 
-- 
2.43.0


From 0d2ab7d44455ec21f9bc314ba60372bc61e042e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 15/31] fix: ValueToTID rejects numbers that are not tag
 identifiers

Zero identifier matched the end of tagset, so assigning it replaced the last
tag, whatever it is, and numbers out of range turned to some other tag.
---
 luawpk/nametid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 0d485c0..6fa7e77 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -137,6 +137,10 @@ var (
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
 		tid = wpk.TID(n)
+		if tid == wpk.TIDnone || lua.LNumber(tid) != n {
+			err = &ErrKeyUndef{n.String()}
+			return
+		}
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
 			tid = n
-- 
2.43.0


From d1d5be68a5a43a9df5ca661beeacf981edb53794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 16/31] fix: ValueToTag rejects values longer than tag can hold

Truncated tag length made broken tagset.
---
 luawpk/nametid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 6fa7e77..dc86229 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -259,6 +259,9 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 			return
 		}
 	}
+	if len(tag) > 0xffff {
+		err = wpk.ErrRangeTSSize
+	}
 	return
 }
 
-- 
2.43.0


From e61b887bfc2f91680a7faf53efd7df020945c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 17/31] fix: Envfmt expands variables at the end of text
 properly

Variables map was ignored there, unknown variable was replaced by zero bytes
and variable with one-letter name was not recognized.
---
 util/strutil.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..1a2779c 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -206,7 +206,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -275,8 +275,16 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
@@ -293,7 +301,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -361,13 +369,22 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			copy(e[j:], env)
+			j += len(env)
+			pc = i
 		}
 		mode = 0
-	} else { // copy remainder
-		copy(e[j:], b[pc:])
 	}
+	copy(e[j:], b[pc:]) // copy remainder
 	return B2S(e)
 }
-- 
2.43.0


From 211409b4ae0f5fa4f9950105086687727c401fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 18/31] fix: extract refuses names leading out of the
 destination path

---
 cmd/extract/extract.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..5932444 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -134,6 +136,10 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
+				if !filepath.IsLocal(filepath.FromSlash(fkey)) {
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: fs.ErrInvalid}
+					return
+				}
 				var fullpath = util.JoinPath(DstPath, fkey)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
-- 
2.43.0


From e6814f52846fc73b300f481aaed24ed2cfddfddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 19/31] fix: bulk tagger checks file extent

---
 bulk/bulk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..0e8eb29 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,14 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	if offset > uint(len(bulk)) {
+		err = &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+		return
+	}
+	if size > uint(len(bulk))-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
-- 
2.43.0


From 3d70882c5c79226c9898618e7062723163acbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 20/31] fix: mmap tagger checks file extent and opens empty
 files

Mapping out of the file raises a fault on access, and empty region can not be
mapped.
---
 mmap/mmap.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..7b8dbea 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -27,6 +27,25 @@ type MappedFile struct {
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	var fi fs.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	if offset > uint(fi.Size()) {
+		err = &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+		return
+	}
+	if size > uint(fi.Size())-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
+	if size == 0 { // empty region can not be mapped
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
@@ -51,6 +70,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil { // empty file is not mapped
+		return nil
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From 16e2820b1fcf8f39a866f875c161aecd53533a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 21/31] fix: fsys tagger checks file extent

---
 fsys/fsys.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..5bef1a3 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -27,7 +27,24 @@ func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
 	if wpkf, err = os.Open(fpath); err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			wpkf.Close()
+		}
+	}()
+	var fi fs.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		return
+	}
 	var offset, size = ts.Pos()
+	if offset > uint(fi.Size()) {
+		err = &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+		return
+	}
+	if size > uint(fi.Size())-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
-- 
2.43.0


From 687aa5d584e98fb6d904e5767104d06a48cf5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 22/31] fix: ReadDirN returns entries sorted by filename as
 documented

---
 dir.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dir.go b/dir.go
index bb0c918..80274e4 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -121,6 +122,9 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 		list[i] = de
 		i++
 	}
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
 	if n > 0 {
 		err = io.EOF
 	}
-- 
2.43.0


From dd2be3e052bad513b7470553515855e688e3cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 23/31] fix: Union.ReadDirN lists each name once from the first
 package

Files of later packages replaced the same files of earlier ones, repeated files
were counted to the limit, directories of packages with different workspaces
were repeated, and entries were not sorted.
---
 union.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/union.go b/union.go
index c5de5ad..4d4b208 100644
--- a/union.go
+++ b/union.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"io/fs"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -160,7 +161,7 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	for _, pkg := range u.List {
 		var fulldir = pkg.FullPath(dir)
 		var prefix string
-		if fulldir != "." {
+		if fulldir != "." && fulldir != "" {
 			prefix = fulldir + "/" // set terminated slash
 		}
 
@@ -169,18 +170,20 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 				var suffix = fkey[len(prefix):]
 				var sp = strings.IndexByte(suffix, '/')
 				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
+					if _, ok := found[suffix]; !ok {
+						found[suffix] = ts
+						ni--
+					}
 				} else { // dir detected
 					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
+					if _, ok := found[suffix[:sp]]; !ok {
 						var dts = TagsetRaw{}.
 							Put(TIDpath, StrTag(subdir))
 						var f = &PackDirFile{
 							TagsetRaw: dts,
 							ftt:       pkg.FTT,
 						}
-						found[subdir] = f
+						found[suffix[:sp]] = f
 						ni--
 					}
 				}
@@ -199,6 +202,9 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 		list[i] = de
 		i++
 	}
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
 	if ni > 0 {
 		err = io.EOF
 	}
-- 
2.43.0


From 70b8428e5c74dcd625a6d10d779337e0a46836e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 24/31] fix: TableToTagset does not modify given tagset in
 place

On bad value in the table tags of already stored tagset could be changed.
---
 luawpk/nametid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index dc86229..d0a2266 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -309,6 +309,7 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	var errs []error
+	ts = wpk.CopyTagset(ts) // given tagset can be already in tags table
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
 			errk error
-- 
2.43.0


From fdde26cf75f76d973c2ec8b4e3aca98c3c4ca66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 25/31] fix: Begin starts package with empty tags table

Entries of previously opened package got to the new one.
---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 25a043f..c30735d 100644
--- a/writer.go
+++ b/writer.go
@@ -42,6 +42,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// new package has no files yet
+	ftt.tsm.Init(0)
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
-- 
2.43.0


From 82da6085f7f3001854f613a3a27b81b9fae2b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 26/31] fix: CheckTagset and Pos take the first of repeated
 tags as accessors do

---
 tagset.go | 13 ++-----------
 wpk.go    | 15 ++++++---------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/tagset.go b/tagset.go
index c4164e9..2995439 100644
--- a/tagset.go
+++ b/tagset.go
@@ -429,17 +429,8 @@ func (ts TagsetRaw) TagUnixms(tid TID) (int64, bool) {
 // Pos returns file offset and file size in package.
 // Those values required to be present in any tagset.
 func (ts TagsetRaw) Pos() (offset, size uint) {
-	var tsi, n = ts.Iterator(), 2
-	for tsi.Next() && n > 0 {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		case TIDsize:
-			size, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		}
-	}
+	offset, _ = ts.TagUint(TIDoffset)
+	size, _ = ts.TagUint(TIDsize)
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index 250c2a9..0c77b5f 100644
--- a/wpk.go
+++ b/wpk.go
@@ -295,23 +295,20 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	var offset, size uint
 	var ispath, isoffset, issize bool
 
-	// find expected tags
+	// check up that whole tagset can be scanned
 	var tsi = ts.Iterator()
 	for tsi.Next() {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDsize:
-			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDpath:
-			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
-		}
 	}
 	if tsi.Failed() {
 		err = io.ErrUnexpectedEOF
 		return
 	}
 
+	// find expected tags, on repeated tags get those which the tagset accessors return
+	fkey, ispath = ts.TagStr(TIDpath)
+	offset, isoffset = ts.TagUint(TIDoffset)
+	size, issize = ts.TagUint(TIDsize)
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
-- 
2.43.0


From 75b74e48c44d229388e62d7f90ca630606b372c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 27/31] fix: tags table with empty entry is not written as
 truncated one

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 0c77b5f..72019df 100644
--- a/wpk.go
+++ b/wpk.go
@@ -479,7 +479,7 @@ func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
 	// write files tags table
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		var tsl = len(ts)
-		if tsl > tsmaxlen {
+		if tsl == 0 || tsl > tsmaxlen { // zero length is the table end marker
 			err = ErrRangeTSSize
 			return false
 		}
-- 
2.43.0


From 5e80823ed3244288e7f11be8a267855c1b1ed993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 28/31] fix: Union.Open parses the package number from the full
 path

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index 4d4b208..50c3598 100644
--- a/union.go
+++ b/union.go
@@ -229,7 +229,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 
 	if len(u.List) > 0 {
 		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
-			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
+			var idx, err = strconv.ParseUint(fulldir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
 			}
-- 
2.43.0


From 1e97f53cc03b40d5e1d50e88829ffc30ce69c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 29/31] fix: ReadDirN with zero limit lists the whole directory

---
 dir.go   | 3 +++
 union.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dir.go b/dir.go
index 80274e4..7e377a4 100644
--- a/dir.go
+++ b/dir.go
@@ -86,6 +86,9 @@ func TempPath(fname string) string {
 // It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
 	fulldir = util.ToSlash(fulldir)
+	if n == 0 {
+		n = -1 // the whole list, as for any n <= 0
+	}
 	var found = map[string]fs.DirEntry{}
 	var prefix string
 	if fulldir != "." && fulldir != "" {
diff --git a/union.go b/union.go
index 50c3598..64dbfcf 100644
--- a/union.go
+++ b/union.go
@@ -157,6 +157,9 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
 	var found = map[string]fs.DirEntry{}
+	if n == 0 {
+		n = -1 // the whole list, as for any n <= 0
+	}
 	var ni = n
 	for _, pkg := range u.List {
 		var fulldir = pkg.FullPath(dir)
-- 
2.43.0


From f9b6027a2fa17c89cbe932ffa2d5579aa7888a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 30/31] fix: scripts continue file numbers of a loaded package

---
 luawpk/luawpk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..48ee20c 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -480,6 +480,14 @@ func wpkload(ls *lua.LState) int {
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
+	// continue file numbers after those the package already has
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+			pkg.fidcount = fid
+		}
+		return true
+	})
+
 	return 0
 }
 
-- 
2.43.0


From e1badbdf777149a6cbb8b17567a2fd3895713967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 31/31] fix: Envfmt with an unfinished pattern at the end of
 the text

---
 util/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/strutil.go b/util/strutil.go
index 1a2779c..a860ab0 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -297,7 +297,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 
 	// 2nd passage, fill out result
 	var e = make([]byte, el)
-	i = 0
+	i, mode = 0, 0 // unfinished pattern can be at the end of fpath
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-- 
2.43.0

