claimed={
'C01':('proof','every constructor, reader and little-endian accessor under contract, all values; round trip as lemmas'),
}
na={}
claimed.update({
'C02':('proof','every tag-set operation under contract at byte level; lemmas give its meaning for lookup, order and count'),
'C03':('proof','iterator and queries under contract for arbitrary byte strings, termination included'),
})
claimed['C13']=('proof','every helper under contract for all strings; trim-after-join and single-separator as lemmas')
claimed['C07']=('proof','every operation of the table under contract over its key and value sequences, map/slice bijection as data invariant; enumeration with an arbitrary visitor')
claimed['C08']=('proof','lock discipline of every operation: shared memory only under the lock, one critical section each, locks on return as at entry, none held at the visitor call; indivisibility follows by the argument in DESIGN.md')
claimed['C04']=('proof','Parse, ReadFrom, WriteTo, IsReady and the accessors under contract over modelled streams (io.ReadFull, Write assumed as documented); round trip as a lemma')
claimed['C05']=('proof','WriteTo, Parse and ReadFrom under contract against one table grammar; round trip as a lemma; oversized entries refused')
claimed['C06']=('proof','OpenStream, Parse, ReadFrom, CheckTagset, GetPackageInfo under contract for all streams, allocation bounded by the stream; distinct names as a lemma')
claimed['C12']=('proof','Rename, PutAlias, DelTagset, SetTagset under contract over the table and entry bytes; RenameDir over the names, its count and its failure; entry bytes after RenameDir are in the companion, bounded')
claimed['C18']=('proof','NewSliceFile, NewMappedFile, NewChunkFile, the taggers and ReadFile under contract; bytes.Reader, io.SectionReader, os.File and mmap.MapRegion assumed to give the stated part of their content')
claimed['C09']=('proof','PackData, PackFile, BaseTagset under contract over modelled streams; io.Copy and Seek assumed as documented')
claimed['C22']=('proof','PackFile and every accessor under contract; that the recorded times are read back is a lemma; the times reported by the operating system (package times) are assumed')
claimed['C10']=('proof','Begin, Append, Sync, packing and opening under contract over modelled streams; that opening accepts what Sync leaves and gives back the same names, tags, information and bytes are lemmas; whole histories in the companion, bounded')
claimed['C11']=('proof','the content before every write of Begin, packing and Sync is under contract not to be that of a finished package, a single write of Sync completes it; a split package under append opens as before is a lemma; each write is taken to happen whole or not at all; crash points of whole histories in the companion, bounded')
claimed['C15']=('proof','Enum, Stat, Glob, Sub, Open, OpenDir, ReadFile under contract for every table and workspace, path.Match and the access modes assumed as stated; that a sub-view shows exactly the shortened names is a lemma; reading through real files in the companion, bounded')
claimed['C17']=('proof','Stat, ReadFile, Open, AllKeys, Glob, Sub under contract for every list of packages; that each name is enumerated exactly once is a lemma; listing (ReadDirN) only by the bounded companion')
claimed['C16']=('bounded: random packages and unions up to 25 files, every directory, limits around the number of entries','OpenDir under contract; the listing itself by a bounded companion')
claimed['C19']=('proof','every directory made and file opened by readpackage is under contract to be a path inside the destination, for every package; filepath.IsLocal, path.Dir and the operating system path resolution are assumed as documented (no symbolic links in the destination); that ordinary files get their own names and bytes in the companion, bounded')
claimed['C21']=('proof','adjusttagset and every automatic tag under contract at byte level; what each adds and leaves alone are lemmas; the hash and media-type libraries are assumed functions of the content; whole scripts in the companion, bounded')
claimed['C20']=('proof','key and value conversion under contract for every Lua value, and the calls settag, addtag and deltag as a whole over the Lua state; the functions that walk a Lua table and the other script functions only by the bounded companion')
claimed['C14']=('proof','Envfmt under contract for every text, map and environment: the result is the text read as a row of steps, each replaced once or copied; termination included; os.LookupEnv assumed to be a function during a call')
claimed['C23']=('proof','PackData and PackFile under contract beside other goroutines: what the writer lock protects is changed only under it, in one critical section, and recorded extents are those of that section; that extents of successive sections are disjoint and keep their content is a lemma; indivisible sections by the argument in DESIGN.md')
