package memfile
def aoInv(a) = a.totalSize >= 0 && a.totalSize < pow2(45) && ite(a.bufferedWriter == nil, a.totalSize == fsize(a.file), gl(a.bufferedWriter,"file") == a.file && fpos(a.file) == fsize(a.file) && a.nextAppendOffset == a.totalSize && a.totalSize == fsize(a.file) + gl(a.bufferedWriter,"n"))
def aoByte(a, i) = ite(a.bufferedWriter != nil && i >= fsize(a.file), gl(a.bufferedWriter,"buf")[i], fbyte(a.file, i))

func (*appendOptimizedFile).flush
prop C02
nilable a.bufferedWriter
setup gl(a.bufferedWriter, "file") = a.file
requires aoInv(a)
modifies a.bufferedWriter, file(a.file), *a.bufferedWriter
ensures [flushed] imp(err == nil, a.bufferedWriter == nil && a.totalSize == fsize(a.file) && fsize(a.file) == old(a.totalSize))
ensures [bytes] imp(err == nil, forall(i, 0, a.totalSize, fbyte(a.file, i) == old(aoByte(a, i))))
ensures [ok] imp(iook, err == nil)

func (*appendOptimizedFile).ReadAt
prop C02
nilable a.bufferedWriter
setup gl(a.bufferedWriter, "file") = a.file
requires aoInv(a)
requires off >= 0
modifies a.bufferedWriter, file(a.file), *a.bufferedWriter, elems(p)
ensures [bytes] imp(err == nil, forall(i, 0, len(p), p[i] == old(aoByte(a, off+i))))
ensures [full] imp(err == nil, result == len(p) && off + len(p) <= old(a.totalSize))
ensures [ok] imp(iook && off + len(p) <= old(a.totalSize), err == nil)
ensures [short] imp(iook && off + len(p) > old(a.totalSize), result == max(0, old(a.totalSize) - off))
ensures [inv] imp(iook, aoInv(a))
ensures [keeps] imp(iook, a.totalSize == old(a.totalSize) && forall(i, 0, a.totalSize, aoByte(a, i) == old(aoByte(a, i))))

func (*appendOptimizedFile).WriteAt
prop C02
nilable a.bufferedWriter
setup gl(a.bufferedWriter, "file") = a.file
requires aoInv(a)
requires off >= 0 && off < pow2(44) && 0 < len(p) && len(p) < pow2(40)
modifies a.bufferedWriter, a.totalSize, a.nextAppendOffset, file(a.file), *a.bufferedWriter
ensures [inv] imp(iook, aoInv(a) || a.totalSize >= pow2(45))
ensures [ok] imp(iook, err == nil && n == len(p))
ensures [size] imp(iook, a.totalSize == ite(len(p) == 0, old(a.totalSize), max(old(a.totalSize), off + len(p))))
ensures [written] imp(iook, forall(i, 0, len(p), aoByte(a, off+i) == old(p[i])))
ensures [others] imp(iook, forall(i, 0, old(a.totalSize), imp(i < off || i >= off + len(p), aoByte(a, i) == old(aoByte(a, i)))))
ensures [gap] imp(iook && len(p) > 0, forall(i, old(a.totalSize), off, aoByte(a, i) == 0))

func (*appendOptimizedFile).Sync
prop C02
nilable a.bufferedWriter
setup gl(a.bufferedWriter, "file") = a.file
requires aoInv(a)
modifies a.bufferedWriter, file(a.file), *a.bufferedWriter
ensures [flushed] imp(err == nil, a.bufferedWriter == nil && fsize(a.file) == old(a.totalSize))
ensures [bytes] imp(err == nil, forall(i, 0, a.totalSize, fbyte(a.file, i) == old(aoByte(a, i))))
ensures [ok] imp(iook, err == nil)

func (*appendOptimizedFile).Close
prop C02
nilable a.bufferedWriter
setup gl(a.bufferedWriter, "file") = a.file
requires aoInv(a)
modifies a.bufferedWriter, file(a.file), *a.bufferedWriter
ensures [flushed] imp(err == nil, fsize(a.file) == old(a.totalSize))
ensures [bytes] imp(err == nil, forall(i, 0, a.totalSize, fbyte(a.file, i) == old(aoByte(a, i))))
ensures [ok] imp(iook, err == nil)

func (*appendOptimizedFile).Size
prop C02
nilable a.bufferedWriter
ensures result == a.totalSize

func (*appendOptimizedFile).ReadAll
prop C02
nilable a.bufferedWriter
setup gl(a.bufferedWriter, "file") = a.file
requires aoInv(a)
requires a.totalSize < pow2(40)
requires iook
modifies a.bufferedWriter, file(a.file), *a.bufferedWriter
ensures [ok] imp(iook, err == nil)
ensures [bytes] imp(err == nil, len(result) == old(a.totalSize) && forall(i, 0, len(result), result[i] == old(aoByte(a, i))))
