From 617ef666670e48e23a1b9ee6b7ab5ed6ec37119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 01/47] fix: return rows that are buffered or queued when
 reading them back

---
 threadeddyscocolumn.cc | 19 ++++++++++++++-----
 threadeddyscocolumn.h  |  1 +
 timeblockbuffer.h      | 14 +++++++++++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 2296ef8..7f7364e 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -103,17 +103,26 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   _isCurrentBlockChanged = false;
 }
 
+template <typename DataType>
+bool ThreadedDyscoColumn<DataType>::isBlockInCache(size_t blockIndex) {
+  std::lock_guard<std::mutex> lock(_mutex);
+  return _cache.find(blockIndex) != _cache.end();
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::getValues(
     casacore::uInt rowNr, casacore::Array<DataType> *dataArr) {
   if (!areOffsetsInitialized()) {
-    // Trying to read before first block was written -- return zero
-    // TODO if a few rows were written of the first block, those are
-    // incorrectly returned. This is a rare case but can be fixed.
-    *dataArr = DataType();
+    // Trying to read before first block was written -- only rows of the first
+    // block that are still in the buffer have values, others are zero.
+    casacore::Bool deleteIt;
+    DataType *dataPtr = dataArr->getStorage(deleteIt);
+    _timeBlockBuffer->GetData(rowNr, dataPtr);
+    dataArr->putStorage(dataPtr, deleteIt);
   } else {
     size_t blockIndex = getBlockIndex(rowNr);
-    if (blockIndex >= nBlocksInFile()) {
+    if (_currentBlock != blockIndex && !isBlockInCache(blockIndex) &&
+        blockIndex >= nBlocksInFile()) {
       // Trying to read a row that was not stored yet -- return zero
      *dataArr = DataType();
     } else {
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 208901f..a086f3f 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -199,6 +199,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       unsigned int *unpackedSymbolBuffer,
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
+  bool isBlockInCache(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index e847e90..8434dd3 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -3,6 +3,7 @@
 
 #include "uvector.h"
 
+#include <algorithm>
 #include <complex>
 #include <vector>
 
@@ -38,10 +39,17 @@ class TimeBlockBuffer {
       newRow.visibilities[i] = data[i];
   }
 
+  /**
+   * Copies the data of a row to @p destination. The result is zero for a row
+   * that has not been set.
+   */
   void GetData(size_t blockRow, data_t *destination) const {
-    const data_t *srcPtr = _data[blockRow].visibilities.data();
-    memcpy(destination, srcPtr,
-           sizeof(data_t) * _data[blockRow].visibilities.size());
+    if (blockRow < _data.size() && !_data[blockRow].visibilities.empty()) {
+      const std::vector<data_t> &source = _data[blockRow].visibilities;
+      std::copy(source.begin(), source.end(), destination);
+    } else {
+      std::fill_n(destination, _nPol * _nChannels, data_t());
+    }
   }
 
   size_t NRows() const { return _data.size(); }
-- 
2.43.0


From 8a43ffc64dd49b967ebdaa5442d44eb93673287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 02/47] fix: wait until a queued block is written before
 loading it to change it

---
 threadeddyscocolumn.cc | 8 ++++++++
 threadeddyscocolumn.h  | 1 +
 2 files changed, 9 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 7f7364e..09b6663 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -77,6 +77,7 @@ void ThreadedDyscoColumn<DataType>::setShapeColumn(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
+  waitUntilBlockIsWritten(blockIndex);
   if (blockIndex < nBlocksInFile()) {
     readCompressedData(blockIndex, _packedBlockReadBuffer.data(), _blockSize);
     const size_t nPolarizations = _shape[0], nChannels = _shape[1],
@@ -103,6 +104,13 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
   _isCurrentBlockChanged = false;
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::waitUntilBlockIsWritten(size_t blockIndex) {
+  std::unique_lock<std::mutex> lock(_mutex);
+  while (_cache.find(blockIndex) != _cache.end())
+    _cacheChangedCondition.wait(lock);
+}
+
 template <typename DataType>
 bool ThreadedDyscoColumn<DataType>::isBlockInCache(size_t blockIndex) {
   std::lock_guard<std::mutex> lock(_mutex);
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index a086f3f..29bbf3e 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -200,6 +200,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
   bool isBlockInCache(size_t blockIndex);
+  void waitUntilBlockIsWritten(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
   size_t maxCacheSize() const {
-- 
2.43.0


From fac2bc75dec145c28351ba7c06e263e92b63de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 03/47] fix: do not access rows past the end of the table when
 loading the last block

---
 threadeddyscocolumn.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 09b6663..b23ba1f 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -92,8 +92,12 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
     float *metaData = reinterpret_cast<float *>(_packedBlockReadBuffer.data());
     initializeDecode(_timeBlockBuffer.get(), metaData, nRows, _antennaCount);
     uint64_t startRow = getRowIndex(blockIndex);
+    _timeBlockBuffer->ResetData();
     _timeBlockBuffer->resize(nRows);
-    for (size_t blockRow = 0; blockRow != nRows; ++blockRow) {
+    // The last block might be only partially filled with rows
+    const uint64_t nTableRows = _ant1Col->nrow();
+    for (size_t blockRow = 0;
+         blockRow != nRows && startRow + blockRow < nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
-- 
2.43.0


From 8a8f093e6a5ec43d13e9e19c336cc2a30c1f12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 04/47] fix: store zeros for the unwritten rows of a partially
 written block

---
 threadeddyscocolumn.cc |  7 +++++++
 timeblockbuffer.h      | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index b23ba1f..cb35362 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -103,6 +103,9 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
       decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
              a1, a2);
     }
+  } else {
+    // Nothing stored yet: make sure to forget the rows of the previous block
+    _timeBlockBuffer->ResetData();
   }
   _currentBlock = blockIndex;
   _isCurrentBlockChanged = false;
@@ -165,6 +168,10 @@ void ThreadedDyscoColumn<DataType>::getValues(
 
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::storeBlock() {
+  // Rows that were not written should not keep the encoder from encoding the
+  // block, nor leave it with values from another block.
+  _timeBlockBuffer->FillUnsetRows(nRowsInBlock());
+
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
   std::unique_lock<std::mutex> lock(_mutex);
diff --git a/timeblockbuffer.h b/timeblockbuffer.h
index 8434dd3..9a87cf7 100644
--- a/timeblockbuffer.h
+++ b/timeblockbuffer.h
@@ -52,6 +52,21 @@ class TimeBlockBuffer {
     }
   }
 
+  /**
+   * Extends the buffer to @p nRows and sets rows without data to zero. These
+   * rows do not belong to a baseline, so their antennae are made equal.
+   */
+  void FillUnsetRows(size_t nRows) {
+    if (_data.size() < nRows) _data.resize(nRows);
+    for (DataRow &row : _data) {
+      if (row.visibilities.empty()) {
+        row.antenna1 = 0;
+        row.antenna2 = 0;
+        row.visibilities.assign(_nPol * _nChannels, data_t());
+      }
+    }
+  }
+
   size_t NRows() const { return _data.size(); }
 
   size_t MaxAntennaIndex() const {
-- 
2.43.0


From 47e361bdb5a7d549ddc0eb6ee80b63b3142077a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 05/47] fix: return zeros when reading a column past the end of
 the file, and report read errors there

---
 dyscostman.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index a4783b7..f27ba7b 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <algorithm>
+
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
 
 namespace dyscostman {
@@ -422,10 +424,11 @@ void DyscoStMan::readCompressedData(size_t blockIndex,
   if (_fStream->fail()) {
     // This can be sort of ok ; row exists because other columns have written
     // here, but no data had been written yet for this column
-    if (blockIndex + 1 != _nBlocksInFile)
+    if (blockIndex + 1 != _nBlocksInFile || !_fStream->eof())
       throw DyscoStManError("I/O error: error while reading file '" +
                             fileName() + "'");
     _fStream->clear();  // reset fail bit
+    std::fill_n(dest, size, 0);
   }
 }
 
-- 
2.43.0


From 3cb2a7e30e8275448c4ddd22f42e725ab96f9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 06/47] fix: count the last block when opening a file of which
 its last column was not written

---
 dyscostman.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index f27ba7b..fe046ce 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -300,8 +300,10 @@ void DyscoStMan::open(casacore::uInt nRow, casacore::AipsIO &) {
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error reading file '" + fileName());
   std::streampos size = _fStream->tellg();
-  if (size > _headerSize)
-    _nBlocksInFile = (size_t(size) - _headerSize) / _blockSize;
+  if (size > _headerSize && _blockSize != 0)
+    // The last columns of the last block might not have been written: round up
+    _nBlocksInFile =
+        (size_t(size) - _headerSize + _blockSize - 1) / _blockSize;
   else
     _nBlocksInFile = 0;
 }
-- 
2.43.0


From 181615ce917cdb0321e94471b81a67e9c9d0cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 07/47] fix: write a header for new files, such that a set
 without data can be reopened

---
 dyscostman.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index fe046ce..f6d551d 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -377,6 +377,9 @@ void DyscoStMan::prepare() {
   // initializeRowsPerBlock() to let the columns know this value.
   if (areOffsetsInitialized())
     initializeRowsPerBlock(_rowsPerBlock, _antennaCount, false);
+  else if (_headerSize == 0)
+    // A new file: make sure that it can be opened when no data gets written
+    writeHeader();
 }
 
 void DyscoStMan::reopenRW() {}
-- 
2.43.0


From 22b156b43ed3fa6020f25eac9df668cdc8f7b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 08/47] fix: store the data when closing a set with only a
 single time block

---
 dyscostman.cc          | 7 +++++++
 dyscostmancol.h        | 8 ++++++++
 threadeddyscocolumn.cc | 9 +++++++++
 threadeddyscocolumn.h  | 3 +++
 4 files changed, 27 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index f6d551d..7eac39a 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -111,6 +111,13 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
 }
 
 void DyscoStMan::makeEmpty() {
+  if (!areOffsetsInitialized()) {
+    // If not more than one block was written, that block is still to be stored
+    size_t nRows = 0, nAntennae = 0;
+    for (std::unique_ptr<DyscoStManColumn> &col : _columns)
+      col->GetUnfinishedFirstBlock(nRows, nAntennae);
+    if (nRows != 0) initializeRowsPerBlock(nRows, nAntennae, true);
+  }
   for (std::unique_ptr<DyscoStManColumn> &col : _columns) {
     col->shutdown();
   }
diff --git a/dyscostmancol.h b/dyscostmancol.h
index 9f76181..4eb6ce8 100644
--- a/dyscostmancol.h
+++ b/dyscostmancol.h
@@ -48,6 +48,14 @@ class DyscoStManColumn : public casacore::StManColumn {
 
   virtual void InitializeAfterNRowsPerBlockIsKnown() = 0;
 
+  /**
+   * As long as the number of rows per block is not known, the rows of the first
+   * block are held by the columns. This method increases the given values to at
+   * least those of the rows that are held by this column.
+   */
+  virtual void GetUnfinishedFirstBlock(size_t &nRows,
+                                       size_t &nAntennae) const = 0;
+
   virtual size_t CalculateBlockSize(size_t nRowsInBlock,
                                     size_t nAntennae) const = 0;
 
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index cb35362..49fea93 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -296,6 +296,15 @@ void ThreadedDyscoColumn<DataType>::InitializeAfterNRowsPerBlockIsKnown() {
   for (size_t i = 0; i != threadCount; ++i) _threadGroup.create_thread(functor);
 }
 
+template <typename DataType>
+void ThreadedDyscoColumn<DataType>::GetUnfinishedFirstBlock(
+    size_t &nRows, size_t &nAntennae) const {
+  if (_isCurrentBlockChanged) {
+    nRows = std::max(nRows, _timeBlockBuffer->NRows());
+    nAntennae = std::max(nAntennae, _timeBlockBuffer->MaxAntennaIndex() + 1);
+  }
+}
+
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::encodeAndWrite(
     size_t blockIndex, const CacheItem &item, unsigned char *packedSymbolBuffer,
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 29bbf3e..520819b 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -105,6 +105,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
    */
   virtual void InitializeAfterNRowsPerBlockIsKnown() override;
 
+  virtual void GetUnfinishedFirstBlock(size_t &nRows,
+                                       size_t &nAntennae) const final override;
+
   /**
    * Set the bits per symbol. Should only be called by DyscoStMan.
    * @param bitsPerSymbol New number of bits per symbol.
-- 
2.43.0


From e7c1bccf3ef86530a529f95f309970f5af1dca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 09/47] fix: keep the values of the other columns when removing
 a column

---
 dyscostman.cc          | 40 +++++++++++++++++++++++++++++++++++++++-
 dyscostman.h           | 11 +++++++++++
 threadeddyscocolumn.cc |  3 ++-
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 7eac39a..38a974b 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -6,6 +6,8 @@
 
 #include "header.h"
 
+#include <unistd.h>
+
 #include <algorithm>
 
 void register_dyscostman() { dyscostman::DyscoStMan::registerClass(); }
@@ -415,8 +417,21 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
            _columns.begin();
        i != _columns.end(); ++i) {
     if (i->get() == column) {
-      _columns.erase(i);
+      (*i)->shutdown();
+      std::lock_guard<std::mutex> lock(_mutex);
+      const size_t oldHeaderSize = _headerSize;
+      const size_t oldBlockSize = _blockSize;
+      size_t columnOffset = 0, columnSize = 0;
+      if (areOffsetsInitialized()) {
+        columnOffset = (*i)->OffsetInBlock();
+        columnSize = (*i)->CalculateBlockSize(_rowsPerBlock, _antennaCount);
+      }
+      i = _columns.erase(i);
+      for (; i != _columns.end(); ++i)
+        (*i)->SetOffsetInBlock((*i)->OffsetInBlock() - columnSize);
+      _blockSize -= columnSize;
       writeHeader();
+      removeFromBlocks(oldHeaderSize, oldBlockSize, columnOffset, columnSize);
       return;
     }
   }
@@ -424,6 +439,29 @@ void DyscoStMan::removeColumn(casacore::DataManagerColumn *column) {
       "Trying to remove column that was not part of the storage manager");
 }
 
+void DyscoStMan::removeFromBlocks(size_t oldHeaderSize, size_t oldBlockSize,
+                                  size_t offset, size_t size) {
+  // Because blocks only move towards the start of the file, it is safe to move
+  // them one by one.
+  std::vector<char> block(oldBlockSize);
+  for (size_t i = 0; i != _nBlocksInFile; ++i) {
+    _fStream->seekg(oldHeaderSize + i * oldBlockSize, std::ios_base::beg);
+    _fStream->read(block.data(), oldBlockSize);
+    if (_fStream->eof()) {  // the last block might not be complete
+      std::fill(block.begin() + _fStream->gcount(), block.end(), 0);
+      _fStream->clear();
+    }
+    _fStream->seekp(getFileOffset(i), std::ios_base::beg);
+    _fStream->write(block.data(), offset);
+    _fStream->write(block.data() + offset + size, oldBlockSize - offset - size);
+  }
+  _fStream->flush();
+  if (_fStream->fail() ||
+      truncate(fileName().c_str(), getFileOffset(_nBlocksInFile)) != 0)
+    throw DyscoStManError("I/O error: error while removing column from file '" +
+                          fileName() + "'");
+}
+
 void DyscoStMan::readCompressedData(size_t blockIndex,
                                     const DyscoStManColumn *column,
                                     unsigned char *dest, size_t size) {
diff --git a/dyscostman.h b/dyscostman.h
index f5f46ce..54338ee 100644
--- a/dyscostman.h
+++ b/dyscostman.h
@@ -319,6 +319,17 @@ class DyscoStMan : public casacore::DataManager {
 
   void writeHeader();
 
+  /**
+   * Move the blocks to the positions given by the current header and block
+   * sizes, after a column was removed from the layout.
+   * @param oldHeaderSize Header size of the layout including the column.
+   * @param oldBlockSize Block size of the layout including the column.
+   * @param offset Position of the removed column in a block.
+   * @param size Size of the removed column in a block.
+   */
+  void removeFromBlocks(size_t oldHeaderSize, size_t oldBlockSize,
+                        size_t offset, size_t size);
+
   void makeEmpty();
 
   void setFromSpec(const casacore::Record &spec);
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 49fea93..a1aed85 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -36,7 +36,8 @@ ThreadedDyscoColumn<DataType>::ThreadedDyscoColumn(DyscoStMan *parent,
 // called to empty the cache.
 template <typename DataType>
 void ThreadedDyscoColumn<DataType>::shutdown() {
-  if (_isCurrentBlockChanged) storeBlock();
+  // Without offsets, rows that are still here belong to a removed column
+  if (_isCurrentBlockChanged && areOffsetsInitialized()) storeBlock();
 
   stopThreads();
 }
-- 
2.43.0


From 6448ef8a62198299e8976d33824988da3e24d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 10/47] fix: refuse to add columns as soon as data was written,
 instead of hanging or losing it

---
 dyscostman.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 38a974b..1671ff1 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -331,6 +331,14 @@ casacore::DataManagerColumn *DyscoStMan::makeDirArrColumn(
     const casacore::String & /*dataTypeID*/) {
   std::unique_ptr<DyscoStManColumn> col;
 
+  // Data that is still held by the columns counts as well
+  size_t nRows = 0, nAntennae = 0;
+  for (std::unique_ptr<DyscoStManColumn> &existingCol : _columns)
+    existingCol->GetUnfinishedFirstBlock(nRows, nAntennae);
+  if (areOffsetsInitialized() || nRows != 0)
+    throw DyscoStManError(
+        "Can't add columns while data has been written to table");
+
   if (name == "WEIGHT_SPECTRUM") {
     if (dataType == casacore::TpFloat)
       col.reset(new DyscoWeightColumn(this, dataType));
-- 
2.43.0


From 51bb58584d1c84260dc02730613ba51c1f256d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 11/47] fix: accept the name of the Student's t distribution
 that dataManagerSpec() reports

---
 dyscostman.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyscostman.cc b/dyscostman.cc
index 1671ff1..de45136 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -89,7 +89,7 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
       _distribution = UniformDistribution;
     else if (str == "Gaussian")
       _distribution = GaussianDistribution;
-    else if (str == "StudentT")
+    else if (str == "StudentT" || str == "StudentsT")
       _distribution = StudentsTDistribution;
     else if (str == "TruncatedGaussian")
       _distribution = TruncatedGaussianDistribution;
-- 
2.43.0


From db3e568cc7d64a6ea9f007fabd7b26072918f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 12/47] fix: refuse unsupported bit counts when creating
 columns instead of aborting later

---
 bytepacker.h           | 19 +++++++++++++++++++
 threadeddyscocolumn.cc |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/bytepacker.h b/bytepacker.h
index 4f0189a..8972eff 100644
--- a/bytepacker.h
+++ b/bytepacker.h
@@ -145,6 +145,25 @@ class BytePacker {
   static void unpack16(unsigned *symbolBuffer, unsigned char *packedBuffer,
                        size_t symbolCount);
 
+  /**
+   * Whether symbols of the given size can be packed.
+   */
+  static bool isSupported(unsigned bitCount) {
+    switch (bitCount) {
+      case 2:
+      case 3:
+      case 4:
+      case 6:
+      case 8:
+      case 10:
+      case 12:
+      case 16:
+        return true;
+      default:
+        return false;
+    }
+  }
+
   static size_t bufferSize(size_t nSymbols, size_t nBits) {
     return (nSymbols * nBits + 7) / 8;
   }
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index a1aed85..952ec1f 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -252,6 +252,11 @@ void ThreadedDyscoColumn<DataType>::Prepare(DyscoDistribution, Normalization,
                                             double /*studentsTNu*/,
                                             double /*distributionTruncation*/) {
   stopThreads();
+  if (!BytePacker::isSupported(_bitsPerSymbol))
+    throw DyscoStManError(
+        "Unsupported number of bits per symbol: " +
+        std::to_string(_bitsPerSymbol) +
+        " (supported values are 2, 3, 4, 6, 8, 10, 12 and 16)");
   casacore::Table &table = storageManager().table();
   _ant1Col.reset(new casacore::ScalarColumn<int>(table, "ANTENNA1"));
   _ant2Col.reset(new casacore::ScalarColumn<int>(table, "ANTENNA2"));
-- 
2.43.0


From eb476f23f0c0f4c03f9eff41c63c12b9073ec3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:53 +0000
Subject: [PATCH 13/47] fix: refuse columns that are not two-dimensional
 instead of using undefined sizes

---
 threadeddyscocolumn.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 952ec1f..d1113d9 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -252,6 +252,10 @@ void ThreadedDyscoColumn<DataType>::Prepare(DyscoDistribution, Normalization,
                                             double /*studentsTNu*/,
                                             double /*distributionTruncation*/) {
   stopThreads();
+  if (_shape.size() != 2)
+    throw DyscoStManError(
+        "Columns need to have a two-dimensional shape: polarizations x "
+        "channels");
   if (!BytePacker::isSupported(_bitsPerSymbol))
     throw DyscoStManError(
         "Unsupported number of bits per symbol: " +
-- 
2.43.0


From 975fba857d9085a1e7be69097d84f5b130a5399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 14/47] fix: refuse antennae that do not fit the blocks of the
 file instead of corrupting memory

---
 dyscodatacolumn.h      |  4 ++++
 threadeddyscocolumn.cc | 10 ++++++++--
 threadeddyscocolumn.h  |  7 +++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/dyscodatacolumn.h b/dyscodatacolumn.h
index 7c310a7..41b7c14 100644
--- a/dyscodatacolumn.h
+++ b/dyscodatacolumn.h
@@ -70,6 +70,10 @@ class DyscoDataColumn final : public ThreadedDyscoColumn<std::complex<float>> {
 
   virtual size_t defaultThreadCount() const override;
 
+  virtual bool hasAntennaFactors() const override {
+    return _normalization == Normalization::kAF;
+  }
+
  private:
   struct ThreadData final : public ThreadDataBase {
     ThreadData(std::unique_ptr<TimeBlockEncoder> timeBlockEncoder)
diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index d1113d9..ad7e95c 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -101,8 +101,9 @@ void ThreadedDyscoColumn<DataType>::loadBlock(size_t blockIndex) {
          blockRow != nRows && startRow + blockRow < nTableRows; ++blockRow) {
       int a1 = (*_ant1Col)(startRow + blockRow),
           a2 = (*_ant2Col)(startRow + blockRow);
-      decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(), blockRow,
-             a1, a2);
+      if (isBaselineSupported(a1, a2))
+        decode(_timeBlockBuffer.get(), _unpackedSymbolReadBuffer.data(),
+               blockRow, a1, a2);
     }
   } else {
     // Nothing stored yet: make sure to forget the rows of the previous block
@@ -231,6 +232,11 @@ void ThreadedDyscoColumn<DataType>::putValues(
   if (areOffsetsInitialized()) {
     const size_t blockIndex = getBlockIndex(rowNr),
                  blockRow = getRowWithinBlock(rowNr);
+    if (!isBaselineSupported(ant1, ant2))
+      throw DyscoStManError(
+          "Trying to write data for an antenna with a higher index than any of "
+          "the antennae in the first time block: with AF normalization, all "
+          "time blocks should have the same antennae");
 
     // Is this the first row of a new block?
     if (blockIndex != _currentBlock) {
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index 520819b..bfae992 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -6,6 +6,7 @@
 #include <casacore/casa/Arrays/IPosition.h>
 #include <casacore/tables/Tables/ScalarColumn.h>
 
+#include <algorithm>
 #include <condition_variable>
 #include <cstdint>
 #include <map>
@@ -161,6 +162,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
   const casacore::IPosition &shape() const { return _shape; }
 
+  /** Whether a block stores factors for each of its antennae. */
+  virtual bool hasAntennaFactors() const { return false; }
+
  private:
   struct CacheItem {
     CacheItem(std::unique_ptr<TimeBlockBuffer<data_t>> &&encoder_)
@@ -203,6 +207,9 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
                       ThreadDataBase *threadUserData);
   bool isWriteItemAvailable(typename cache_t::iterator &i);
   bool isBlockInCache(size_t blockIndex);
+  bool isBaselineSupported(size_t ant1, size_t ant2) const {
+    return !hasAntennaFactors() || std::max(ant1, ant2) < _antennaCount;
+  }
   void waitUntilBlockIsWritten(size_t blockIndex);
   void loadBlock(size_t blockIndex);
   void storeBlock();
-- 
2.43.0


From 5c973082a772dcc582f758bcbdc46bef81bcb3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 15/47] fix: report write errors of the last block and the
 header

---
 dyscostman.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index de45136..66346c8 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -217,6 +217,7 @@ void DyscoStMan::writeHeader() {
     cHeader.Serialize(*_fStream);
     col->SerializeExtraHeader(*_fStream);
   }
+  _fStream->flush();
   if (_fStream->fail())
     throw DyscoStManError("I/O error: could not write to file");
 }
@@ -500,6 +501,8 @@ void DyscoStMan::writeCompressedData(size_t blockIndex,
   size_t fileOffset = getFileOffset(blockIndex);
   _fStream->seekp(fileOffset + column->OffsetInBlock(), std::ios_base::beg);
   _fStream->write(reinterpret_cast<const char *>(data), size);
+  // Without a flush, an error could go by unnoticed when closing the file
+  _fStream->flush();
   if (_fStream->fail())
     throw DyscoStManError("I/O error: error while writing file '" + fileName() +
                           "'");
-- 
2.43.0


From 2b307c0190fc9b804fdbb90c186cf2ccd912200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 16/47] fix: do not read an undefined string size from a
 truncated header

---
 serializable.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/serializable.h b/serializable.h
index 172885d..d0ba402 100644
--- a/serializable.h
+++ b/serializable.h
@@ -115,10 +115,12 @@ class Serializable {
 
   static void Unserialize32bString(std::istream &stream, std::string &destStr) {
     size_t size = UnserializeUInt32(stream);
-    char *str = new char[size];
-    stream.read(str, size);
-    destStr = std::string(str, size);
-    delete[] str;
+    // The size might not be valid or be undefined when the file is damaged
+    destStr.clear();
+    for (size_t i = 0; i != size && stream; ++i) {
+      const int character = stream.get();
+      if (stream) destStr += char(character);
+    }
   }
 
  private:
-- 
2.43.0


From bd055f8b46cca7a6cf8674692e3687f9bddce104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 17/47] fix: encode values equal to a quantization level as
 that level for every dither value

---
 stochasticencoder.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stochasticencoder.h b/stochasticencoder.h
index 57e00b3..30b4148 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -113,7 +113,9 @@ class StochasticEncoder {
 
       ValueType ditherMark =
           ValueType(1u << 31) * (value - leftValue) / (rightValue - leftValue);
-      if (ditherMark > ditherValue)
+      // As a double, because the largest dither values would round to 2^31,
+      // making that a value equal to rightValue is not always encoded as such.
+      if (double(ditherMark) > ditherValue)
         return _decDictionary.symbol(lowerBound);
       else
         return _decDictionary.symbol(lowerBound - 1);
-- 
2.43.0


From a6aa17e1ab17eea4a5f27910eec5137674a3e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 18/47] fix: assertion in Dictionary::symbol() should allow the
 first symbol

---
 dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dictionary.h b/dictionary.h
index 2afffd5..2d14c27 100644
--- a/dictionary.h
+++ b/dictionary.h
@@ -166,7 +166,7 @@ class Dictionary {
   }
 
   symbol_t symbol(const_iterator iter) const {
-    assert(iter > begin());
+    assert(iter >= begin());
     return (iter - begin());
   }
 
-- 
2.43.0


From c6c1a717a3185cd328e3c10bfae86de54a9d942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 19/47] fix: keep finite auto-correlations finite when all
 cross-correlations are zero or non-finite

---
 aftimeblockencoder.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aftimeblockencoder.cc b/aftimeblockencoder.cc
index 81afe09..0dacd11 100644
--- a/aftimeblockencoder.cc
+++ b/aftimeblockencoder.cc
@@ -1,5 +1,6 @@
 #include "aftimeblockencoder.h"
 
+#include <algorithm>
 #include <random>
 
 namespace {
@@ -383,6 +384,14 @@ void AFTimeBlockEncoder::calculateAntennaeRMS(
         nextRMS[i] /= weightSum;
     }
 
+    // Without any non-zero cross-correlation the estimates would decrease until
+    // dividing by them overflows
+    if (std::all_of(nextRMS.begin(), nextRMS.end(),
+                    [](double rms) { return rms == 0.0; })) {
+      std::fill_n(_rmsPerAntenna.begin(), antennaCount, 0.0);
+      break;
+    }
+
     double maxVal = 0.0;
     for (size_t i = 0; i != antennaCount; ++i) {
       _rmsPerAntenna[i] = nextRMS[i] * 0.8 + _rmsPerAntenna[i] * 0.2;
-- 
2.43.0


From 5e0f745b27965159cfd2fe415b18d5d92f716b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 20/47] fix: encode blocks in the order in which they were
 stored, such that a static seed gives reproducible files

---
 threadeddyscocolumn.cc | 16 +++++++++++++---
 threadeddyscocolumn.h  |  9 +++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index ad7e95c..1c4d76f 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -24,6 +24,7 @@ ThreadedDyscoColumn<DataType>::ThreadedDyscoColumn(DyscoStMan *parent,
       _fieldCol(),
       _packedBlockReadBuffer(),
       _unpackedSymbolReadBuffer(),
+      _nextSequenceNumber(0),
       _stopThreads(false),
       _currentBlock(std::numeric_limits<size_t>::max()),
       _isCurrentBlockChanged(false),
@@ -177,7 +178,9 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   // Put the data of the current block into the cache so that the parallell
   // threads can write them
   std::unique_lock<std::mutex> lock(_mutex);
-  CacheItem *item = new CacheItem(std::move(_timeBlockBuffer));
+  CacheItem *item =
+      new CacheItem(std::move(_timeBlockBuffer), _nextSequenceNumber);
+  ++_nextSequenceNumber;
   // Wait until there is space available AND the row to be written is not in the
   // cache
   typename cache_t::iterator cacheItemPtr = _cache.find(_currentBlock);
@@ -392,8 +395,15 @@ void ThreadedDyscoColumn<DataType>::EncodingThreadFunctor::operator()() {
 template <typename DataType>
 bool ThreadedDyscoColumn<DataType>::isWriteItemAvailable(
     typename cache_t::iterator &i) {
-  i = _cache.begin();
-  while (i != _cache.end() && i->second->isBeingWritten) ++i;
+  // The blocks are encoded in the order in which they were stored, so that with
+  // a static seed the result does not depend on the timing of the threads.
+  i = _cache.end();
+  for (typename cache_t::iterator j = _cache.begin(); j != _cache.end(); ++j) {
+    if (!j->second->isBeingWritten &&
+        (i == _cache.end() ||
+         j->second->sequenceNumber < i->second->sequenceNumber))
+      i = j;
+  }
   return (i != _cache.end());
 }
 
diff --git a/threadeddyscocolumn.h b/threadeddyscocolumn.h
index bfae992..2350243 100644
--- a/threadeddyscocolumn.h
+++ b/threadeddyscocolumn.h
@@ -167,10 +167,14 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
 
  private:
   struct CacheItem {
-    CacheItem(std::unique_ptr<TimeBlockBuffer<data_t>> &&encoder_)
-        : encoder(std::move(encoder_)), isBeingWritten(false) {}
+    CacheItem(std::unique_ptr<TimeBlockBuffer<data_t>> &&encoder_,
+              size_t sequenceNumber_)
+        : encoder(std::move(encoder_)),
+          sequenceNumber(sequenceNumber_),
+          isBeingWritten(false) {}
 
     std::unique_ptr<TimeBlockBuffer<data_t>> encoder;
+    size_t sequenceNumber;
     bool isBeingWritten;
   };
 
@@ -227,6 +231,7 @@ class ThreadedDyscoColumn : public DyscoStManColumn {
   aocommon::UVector<unsigned char> _packedBlockReadBuffer;
   aocommon::UVector<unsigned int> _unpackedSymbolReadBuffer;
   cache_t _cache;
+  size_t _nextSequenceNumber;
   bool _stopThreads;
   std::mutex _mutex;
   threadgroup _threadGroup;
-- 
2.43.0


From 76fbe3c059d7c4e1d22eb1c0e775bdda964d6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 21/47] fix: refuse files with an unknown distribution or
 normalization

---
 dyscostman.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 66346c8..bbb8603 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -252,6 +252,12 @@ void DyscoStMan::readHeader() {
     throw DyscoStManError(s.str());
   }
 
+  if (header.distribution > TruncatedGaussianDistribution ||
+      header.normalization > static_cast<uint8_t>(Normalization::kRow))
+    throw DyscoStManError("The file '" + fileName() +
+                          "' has an unknown distribution or normalization -- "
+                          "is the file corrupted?");
+
   if (columnCount != _columns.size()) {
     std::stringstream s;
     s << "The column count in the DyscoStMan file (" << columnCount
-- 
2.43.0


From ed28289c2400f1300caadfd63f2fa0f4644b1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:07 +0000
Subject: [PATCH 22/47] fix: refuse distribution parameters that do not give
 quantization levels

---
 dyscodatacolumn.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dyscodatacolumn.cc b/dyscodatacolumn.cc
index 0bcb784..c48bb06 100644
--- a/dyscodatacolumn.cc
+++ b/dyscodatacolumn.cc
@@ -1,5 +1,6 @@
 #include "dyscodatacolumn.h"
 #include "aftimeblockencoder.h"
+#include "dyscostmanerror.h"
 #include "rftimeblockencoder.h"
 #include "rowtimeblockencoder.h"
 
@@ -8,6 +9,17 @@ namespace dyscostman {
 void DyscoDataColumn::Prepare(DyscoDistribution distribution,
                               Normalization normalization, double studentsTNu,
                               double distributionTruncation) {
+  // Written such that NaNs are refused too
+  if (distribution == StudentsTDistribution && !(studentsTNu > 0.0))
+    throw DyscoStManError(
+        "Invalid number of degrees of freedom for the Student's t "
+        "distribution: it should be larger than zero");
+  if (distribution == TruncatedGaussianDistribution &&
+      !(distributionTruncation > 0.0))
+    throw DyscoStManError(
+        "Invalid truncation value for the truncated Gaussian distribution: it "
+        "should be larger than zero");
+
   _distribution = distribution;
   _studentsTNu = studentsTNu;
   _normalization = normalization;
-- 
2.43.0


From 0ca7c3186d5b30d6e9e75108315e41ea488f844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 23/47] fix: do not use an empty buffer as the current block
 when loading a block fails

---
 threadeddyscocolumn.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/threadeddyscocolumn.cc b/threadeddyscocolumn.cc
index 1c4d76f..f1e753d 100644
--- a/threadeddyscocolumn.cc
+++ b/threadeddyscocolumn.cc
@@ -193,6 +193,9 @@ void ThreadedDyscoColumn<DataType>::storeBlock() {
   lock.unlock();
 
   _isCurrentBlockChanged = false;
+  // The buffer does not hold this block anymore, also if loading another block
+  // fails
+  _currentBlock = std::numeric_limits<size_t>::max();
   const size_t nPolarizations = _shape[0], nChannels = _shape[1];
   _timeBlockBuffer.reset(
       new TimeBlockBuffer<data_t>(nPolarizations, nChannels));
-- 
2.43.0


From cd8ed82c019e2cb256b1ebdde59384fea221b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 24/47] fix: dscompress: do not replace flagged values of a set
 that is then refused

---
 dscompress.cc | 58 ++++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 2963dde..5ea5509 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -227,34 +227,6 @@ int main(int argc, char *argv[]) {
       new casacore::Table(msPath, casacore::Table::Update));
 
   Stopwatch watch(true);
-  std::cout << "Replacing flagged values by NaNs...\n";
-  for (const std::string &columnName : columnNames) {
-    if (columnName != "WEIGHT_SPECTRUM") {
-      casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
-      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
-      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
-      casacore::Array<bool> flagArr(flagCol.shape(0));
-      for (size_t row = 0; row != ms->nrow(); ++row) {
-        dataCol.get(row, dataArr);
-        flagCol.get(row, flagArr);
-        casacore::Array<bool>::contiter f = flagArr.cbegin();
-        bool isChanged = false;
-        for (casacore::Array<std::complex<float>>::contiter d =
-                 dataArr.cbegin();
-             d != dataArr.cend(); ++d) {
-          if (*f) {
-            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
-                                     std::numeric_limits<float>::quiet_NaN());
-            isChanged = true;
-          }
-          ++f;
-        }
-        if (isChanged) dataCol.put(row, dataArr);
-      }
-    }
-  }
-  std::cout << "Time taken: " << watch.ToString() << '\n';
-
   if (doCheckMSFormat) {
     std::cout << "Validating MS ordering...\n";
     watch.Reset();
@@ -326,6 +298,36 @@ int main(int argc, char *argv[]) {
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
+  watch.Reset();
+  watch.Start();
+  std::cout << "Replacing flagged values by NaNs...\n";
+  for (const std::string &columnName : columnNames) {
+    if (columnName != "WEIGHT_SPECTRUM") {
+      casacore::ArrayColumn<std::complex<float>> dataCol(*ms, columnName);
+      casacore::ArrayColumn<bool> flagCol(*ms, "FLAG");
+      casacore::Array<std::complex<float>> dataArr(dataCol.shape(0));
+      casacore::Array<bool> flagArr(flagCol.shape(0));
+      for (size_t row = 0; row != ms->nrow(); ++row) {
+        dataCol.get(row, dataArr);
+        flagCol.get(row, flagArr);
+        casacore::Array<bool>::contiter f = flagArr.cbegin();
+        bool isChanged = false;
+        for (casacore::Array<std::complex<float>>::contiter d =
+                 dataArr.cbegin();
+             d != dataArr.cend(); ++d) {
+          if (*f) {
+            *d = std::complex<float>(std::numeric_limits<float>::quiet_NaN(),
+                                     std::numeric_limits<float>::quiet_NaN());
+            isChanged = true;
+          }
+          ++f;
+        }
+        if (isChanged) dataCol.put(row, dataArr);
+      }
+    }
+  }
+  std::cout << "Time taken: " << watch.ToString() << '\n';
+
   watch.Reset();
   watch.Start();
 
-- 
2.43.0


From ae7c486a0b0e644509ae0929dbe601ff1dd2b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 25/47] fix: dscompress: do not access memory out of bounds
 when a time block has more baselines than the first

---
 dscompress.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 5ea5509..7565915 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -267,6 +267,16 @@ int main(int argc, char *argv[]) {
       if (blockNumber == 0) {
         antennasInBlock.push_back(std::make_pair(antenna1, antenna2));
       } else {
+        if (blockOffset >= antennasInBlock.size()) {
+          std::ostringstream msg;
+          msg << "This measurement set is not 'regular'; at table row " << row
+              << ", timeblock index " << blockNumber
+              << " the timeblock has more baselines than previous timeblocks ("
+              << antennasInBlock.size()
+              << "). In other words, not all timesteps had the same baselines. "
+                 "This is required to be able to compress with Dysco.";
+          throw std::runtime_error(msg.str());
+        }
         if (antennasInBlock[blockOffset].first != antenna1 ||
             antennasInBlock[blockOffset].second != antenna2) {
           std::string antstr;
-- 
2.43.0


From 23f68105b75d73ff3c9ebd0bcf4422f6af32f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 26/47] fix: dscompress: give every column its own shape
 instead of that of the last one

---
 dscompress.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 7565915..ad7ff56 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -343,9 +343,11 @@ int main(int argc, char *argv[]) {
 
   StManModifier modifier(*ms);
 
-  casacore::IPosition shape;
+  std::vector<casacore::IPosition> shapes(columnNames.size());
   bool isDataReplaced = false;
-  for (std::string columnName : columnNames) {
+  for (size_t i = 0; i != columnNames.size(); ++i) {
+    const std::string &columnName = columnNames[i];
+    casacore::IPosition &shape = shapes[i];
     bool replaced;
     if (columnName == "WEIGHT_SPECTRUM")
       replaced = modifier.PrepareReplacingColumn<float>(
@@ -357,7 +359,9 @@ int main(int argc, char *argv[]) {
   }
 
   if (isDataReplaced) {
-    for (std::string columnName : columnNames) {
+    for (size_t i = 0; i != columnNames.size(); ++i) {
+      const std::string &columnName = columnNames[i];
+      const casacore::IPosition &shape = shapes[i];
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
             *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
-- 
2.43.0


From c4605ba38a46d37056605916a32639863d54cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:01 +0000
Subject: [PATCH 27/47] fix: dscompress: do not recreate columns that are
 already compressed

---
 dscompress.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index ad7ff56..8ba978f 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -344,6 +344,7 @@ int main(int argc, char *argv[]) {
   StManModifier modifier(*ms);
 
   std::vector<casacore::IPosition> shapes(columnNames.size());
+  std::vector<bool> isReplaced(columnNames.size());
   bool isDataReplaced = false;
   for (size_t i = 0; i != columnNames.size(); ++i) {
     const std::string &columnName = columnNames[i];
@@ -355,11 +356,13 @@ int main(int argc, char *argv[]) {
     else
       replaced = modifier.PrepareReplacingColumn<casacore::Complex>(
           columnName, "DyscoStMan", bitsPerFloat, bitsPerWeight, shape);
+    isReplaced[i] = replaced;
     isDataReplaced = replaced || isDataReplaced;
   }
 
   if (isDataReplaced) {
     for (size_t i = 0; i != columnNames.size(); ++i) {
+      if (!isReplaced[i]) continue;
       const std::string &columnName = columnNames[i];
       const casacore::IPosition &shape = shapes[i];
       if (columnName == "WEIGHT_SPECTRUM")
@@ -371,7 +374,9 @@ int main(int argc, char *argv[]) {
             *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
             distribution, 1.0, distributionTruncation, staticSeed);
     }
-    for (std::string columnName : columnNames) {
+    for (size_t i = 0; i != columnNames.size(); ++i) {
+      if (!isReplaced[i]) continue;
+      const std::string &columnName = columnNames[i];
       if (columnName == "WEIGHT_SPECTRUM")
         modifier.MoveColumnData<float>(columnName);
       else
-- 
2.43.0


From 4e5e10f6a3362804161c2c71f405fc40d593d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 28/47] fix: dscompress: compress further columns of a set that
 already has compressed columns

---
 dscompress.cc   | 15 +++++++++------
 stmanmodifier.h | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 8ba978f..927644d 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -14,13 +14,14 @@ using namespace dyscostman;
 
 template <typename T>
 void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
+                            const std::string &managerName,
                             const casacore::IPosition &shape,
                             unsigned bitsPerComplex, unsigned bitsPerWeight,
                             Normalization normalization,
                             DyscoDistribution distribution, double studentsTNu,
                             double distributionTruncation, bool staticSeed) {
   std::cout << "Constructing new column '" << name << "'...\n";
-  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", "DyscoStMan",
+  casacore::ArrayColumnDesc<T> columnDesc(name, "", "DyscoStMan", managerName,
                                           shape);
   columnDesc.setOptions(casacore::ColumnDesc::Direct |
                         casacore::ColumnDesc::FixedShape);
@@ -28,11 +29,11 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   std::cout << "Querying storage manager...\n";
   bool isAlreadyUsed;
   try {
-    ms.findDataManager("DyscoStMan");
+    ms.findDataManager(managerName);
     isAlreadyUsed = true;
   } catch (std::exception &e) {
     std::cout << "Constructing storage manager...\n";
-    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight);
+    DyscoStMan dataManager(bitsPerComplex, bitsPerWeight, managerName);
     switch (distribution) {
       case GaussianDistribution:
         dataManager.SetGaussianDistribution();
@@ -60,7 +61,7 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   // We do not want to do this within the try-catch
   if (isAlreadyUsed) {
     std::cout << "Adding column with existing datamanager...\n";
-    ms.addColumn(columnDesc, "DyscoStMan", false);
+    ms.addColumn(columnDesc, managerName, true);
   }
 }
 
@@ -361,17 +362,19 @@ int main(int argc, char *argv[]) {
   }
 
   if (isDataReplaced) {
+    // Columns can not be added to a storage manager that already holds data
+    const std::string managerName = modifier.UniqueManagerName("DyscoStMan");
     for (size_t i = 0; i != columnNames.size(); ++i) {
       if (!isReplaced[i]) continue;
       const std::string &columnName = columnNames[i];
       const casacore::IPosition &shape = shapes[i];
       if (columnName == "WEIGHT_SPECTRUM")
         createDyscoStManColumn<float>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
+            *ms, columnName, managerName, shape, bitsPerFloat, bitsPerWeight, normalization,
             distribution, 1.0, distributionTruncation, staticSeed);
       else
         createDyscoStManColumn<casacore::Complex>(
-            *ms, columnName, shape, bitsPerFloat, bitsPerWeight, normalization,
+            *ms, columnName, managerName, shape, bitsPerFloat, bitsPerWeight, normalization,
             distribution, 1.0, distributionTruncation, staticSeed);
     }
     for (size_t i = 0; i != columnNames.size(); ++i) {
diff --git a/stmanmodifier.h b/stmanmodifier.h
index e9bd49d..1145482 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -37,6 +37,27 @@ class StManModifier {
     return dataCol.columnDesc().dataManagerType();
   }
 
+  /**
+   * Make a name for a storage manager that is not used yet in the measurement
+   * set.
+   * @param name The name that is used when it is free.
+   */
+  std::string UniqueManagerName(const std::string &name) const {
+    const casacore::Record info = _ms.dataManagerInfo();
+    std::string result = name;
+    size_t number = 1;
+    for (casacore::uInt i = 0; i != info.nfields();) {
+      if (info.subRecord(i).asString("NAME") == result) {
+        ++number;
+        result = name + std::to_string(number);
+        i = 0;
+      } else {
+        ++i;
+      }
+    }
+    return result;
+  }
+
   /**
    * Rename the old column and create a new column with the default storage
    * manager. After all columns have been renamed, the operation should be
-- 
2.43.0


From abef27bee13c5985c1e0b49ebc8b1495aefc195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 29/47] fix: dscompress, decompress: keep the keywords of
 replaced columns

---
 stmanmodifier.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 1145482..561d354 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -7,6 +7,7 @@
 
 #include <casacore/tables/Tables/ArrColDesc.h>
 #include <casacore/tables/Tables/ArrayColumn.h>
+#include <casacore/tables/Tables/TableRecord.h>
 
 #include <iostream>
 
@@ -149,6 +150,7 @@ class StManModifier {
         new casacore::ArrayColumn<T>(_ms, tempName));
     casacore::ArrayColumn<T> newColumn(_ms, columnName);
     copyValues(newColumn, *oldColumn, _ms.nrow());
+    newColumn.rwKeywordSet() = oldColumn->keywordSet();
     oldColumn.reset();
 
     std::cout << "Removing old column...\n";
-- 
2.43.0


From a402ee554290046c2e51b4cdd1b4f4551e1b1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:15 +0000
Subject: [PATCH 30/47] fix: decompress: do not add the decompressed column to
 the Dysco storage manager

---
 stmanmodifier.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 561d354..24653f0 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -5,6 +5,8 @@
 
 #include <casacore/ms/MeasurementSets/MeasurementSet.h>
 
+#include <casacore/tables/DataMan/StandardStMan.h>
+
 #include <casacore/tables/Tables/ArrColDesc.h>
 #include <casacore/tables/Tables/ArrayColumn.h>
 #include <casacore/tables/Tables/TableRecord.h>
@@ -83,16 +85,19 @@ class StManModifier {
       std::cout << "Renaming old " + columnName + " column...\n";
       _ms.renameColumn(tempName, columnName);
 
+      // Without a manager, casacore adds the column to the first manager of the
+      // table that can add columns, which may be the DyscoStMan.
+      const casacore::StandardStMan newManager(UniqueManagerName(columnName));
       if (isWeight) {
         casacore::ArrayColumn<float> oldColumn(_ms, tempName);
         casacore::ArrayColumnDesc<float> columnDesc(columnName,
                                                     oldColumn.shape(0));
-        _ms.addColumn(columnDesc);
+        _ms.addColumn(columnDesc, newManager);
       } else {
         casacore::ArrayColumn<casacore::Complex> oldColumn(_ms, tempName);
         casacore::ArrayColumnDesc<casacore::Complex> columnDesc(
             columnName, oldColumn.shape(0));
-        _ms.addColumn(columnDesc);
+        _ms.addColumn(columnDesc, newManager);
       }
       return true;
     } else {
-- 
2.43.0


From 40459e28ef7fd4b5fbf4a7bbe46787260fb3a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:54 +0000
Subject: [PATCH 31/47] fix: dscompress, decompress: recognize compressed
 columns that were bound to the storage manager

---
 stmanmodifier.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index 24653f0..d522099 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -9,6 +9,7 @@
 
 #include <casacore/tables/Tables/ArrColDesc.h>
 #include <casacore/tables/Tables/ArrayColumn.h>
+#include <casacore/tables/Tables/TableDesc.h>
 #include <casacore/tables/Tables/TableRecord.h>
 
 #include <iostream>
@@ -37,7 +38,8 @@ class StManModifier {
   template <typename T>
   std::string GetStorageManager(const std::string &columnName) {
     casacore::ArrayColumn<T> dataCol(_ms, columnName);
-    return dataCol.columnDesc().dataManagerType();
+    // The table description does not list managers to which columns were bound
+    return _ms.actualTableDesc()[columnName].dataManagerType();
   }
 
   /**
-- 
2.43.0


From 724a622892d03c2c477cdcfb9f956a3f6d65ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 32/47] fix: decompress: decompress all compressed columns,
 also when there are no data or weights

---
 decompress.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/decompress.cc b/decompress.cc
index 9a96fe3..27c80a7 100644
--- a/decompress.cc
+++ b/decompress.cc
@@ -14,14 +14,26 @@ int main(int argc, char *argv[]) {
       new casacore::Table(argv[1], casacore::Table::Update));
   StManModifier modifier(*ms);
 
-  bool isDataReplaced = modifier.InitColumnWithDefaultStMan("DATA", false);
-  bool isWeightReplaced =
-      modifier.InitColumnWithDefaultStMan("WEIGHT_SPECTRUM", true);
+  // All compressed columns; a set needs not have data or weights
+  std::vector<std::string> columnNames;
+  const casacore::TableDesc desc = ms->actualTableDesc();
+  for (casacore::uInt i = 0; i != desc.ncolumn(); ++i) {
+    if (desc[i].dataManagerType() == "DyscoStMan")
+      columnNames.push_back(desc[i].name());
+  }
 
-  if (isDataReplaced) modifier.MoveColumnData<casacore::Complex>("DATA");
-  if (isWeightReplaced) modifier.MoveColumnData<float>("WEIGHT_SPECTRUM");
+  for (const std::string &columnName : columnNames) {
+    const bool isWeight = desc[columnName].dataType() == casacore::TpFloat;
+    modifier.InitColumnWithDefaultStMan(columnName, isWeight);
+  }
+  for (const std::string &columnName : columnNames) {
+    if (desc[columnName].dataType() == casacore::TpFloat)
+      modifier.MoveColumnData<float>(columnName);
+    else
+      modifier.MoveColumnData<casacore::Complex>(columnName);
+  }
 
-  if (isDataReplaced || isWeightReplaced) {
+  if (!columnNames.empty()) {
     StManModifier::Reorder(ms, argv[1]);
   }
 
-- 
2.43.0


From 627a1d50ac8f131cca8a104011fa25a5cd6c74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:28 +0000
Subject: [PATCH 33/47] fix: dscompress: report missing option values instead
 of using a null pointer

---
 dscompress.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index 927644d..b777870 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -145,6 +145,10 @@ int main(int argc, char *argv[]) {
   int argi = 1;
   while (argi < argc && argv[argi][0] == '-') {
     std::string p(argv[argi] + 1);
+    const bool hasValue = p == "data-bit-rate" || p == "weight-bit-rate" ||
+                          p == "truncgaus" || p == "column";
+    if (hasValue && argi + 1 >= argc)
+      throw std::runtime_error("Missing value for parameter: -" + p);
     if (p == "data-bit-rate") {
       ++argi;
       bitsPerFloat = atoi(argv[argi]);
@@ -180,6 +184,8 @@ int main(int argc, char *argv[]) {
   }
 
   if (columnNames.empty()) columnNames.push_back("DATA");
+  if (argi >= argc)
+    throw std::runtime_error("Missing name of the measurement set");
   std::string msPath = argv[argi];
 
   std::cout << "\tbits per data val = " << bitsPerFloat
-- 
2.43.0


From fb8ccd423a36b4e021208086b437bff34f30c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:33 +0000
Subject: [PATCH 34/47] fix: dscompress: refuse unsupported settings before
 changing the set

---
 dscompress.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index b777870..986abf9 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -1,3 +1,4 @@
+#include "bytepacker.h"
 #include "dyscodistribution.h"
 #include "dysconormalization.h"
 #include "dyscostman.h"
@@ -188,6 +189,16 @@ int main(int argc, char *argv[]) {
     throw std::runtime_error("Missing name of the measurement set");
   std::string msPath = argv[argi];
 
+  // Refuse before anything is changed
+  if (!BytePacker::isSupported(bitsPerFloat) ||
+      !BytePacker::isSupported(bitsPerWeight))
+    throw std::runtime_error(
+        "Unsupported bit rate (supported values are 2, 3, 4, 6, 8, 10, 12 and "
+        "16)");
+  if (distribution == TruncatedGaussianDistribution &&
+      !(distributionTruncation > 0.0))
+    throw std::runtime_error("Invalid truncation value");
+
   std::cout << "\tbits per data val = " << bitsPerFloat
             << "\n"
                "\tbits per weight = "
-- 
2.43.0


From 4fc170b18ddefc5517c2a676abbea3ead58f7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:38 +0000
Subject: [PATCH 35/47] fix: dscompress: handle a column that is selected twice
 only once

---
 dscompress.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dscompress.cc b/dscompress.cc
index 986abf9..b4cfc2b 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -11,6 +11,8 @@
 #include <casacore/tables/Tables/ArrayColumn.h>
 #include <casacore/tables/Tables/ScalarColumn.h>
 
+#include <algorithm>
+
 using namespace dyscostman;
 
 template <typename T>
@@ -170,7 +172,9 @@ int main(int argc, char *argv[]) {
       distributionTruncation = atof(argv[argi]);
     } else if (p == "column") {
       ++argi;
-      columnNames.push_back(argv[argi]);
+      if (std::find(columnNames.begin(), columnNames.end(), argv[argi]) ==
+          columnNames.end())
+        columnNames.push_back(argv[argi]);
     } else if (p == "rfnormalization") {
       normalization = Normalization::kRF;
     } else if (p == "afnormalization") {
-- 
2.43.0


From 0d21aed6e6402b2152563a58a6870bef385ae9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:42 +0000
Subject: [PATCH 36/47] fix: dscompress: refuse sets with unusable columns
 before changing them

---
 dscompress.cc | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/dscompress.cc b/dscompress.cc
index b4cfc2b..11c8525 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -68,6 +68,22 @@ void createDyscoStManColumn(casacore::Table &ms, const std::string &name,
   }
 }
 
+/**
+ * Throws when a column can not be compressed.
+ */
+template <typename T>
+void checkColumn(const casacore::Table &ms, const std::string &name) {
+  casacore::ArrayColumn<T> column(ms, name);
+  for (size_t row = 0; row != ms.nrow(); ++row) {
+    if (!column.isDefined(row))
+      throw std::runtime_error("Column " + name + " has no value in row " +
+                               std::to_string(row));
+    if (column.shape(row) != column.shape(0))
+      throw std::runtime_error("Not all values of column " + name +
+                               " have the same shape");
+  }
+}
+
 /**
  * Compress a given measurement set.
  * @param argc Command line parameter count
@@ -330,6 +346,22 @@ int main(int argc, char *argv[]) {
     std::cout << "Time taken: " << watch.ToString() << '\n';
   }
 
+  for (const std::string &columnName : columnNames) {
+    if (columnName == "WEIGHT_SPECTRUM") {
+      checkColumn<float>(*ms, columnName);
+    } else {
+      checkColumn<casacore::Complex>(*ms, columnName);
+      checkColumn<bool>(*ms, "FLAG");
+      if (casacore::ArrayColumn<bool>(*ms, "FLAG").shape(0) !=
+          casacore::ArrayColumn<casacore::Complex>(*ms, columnName).shape(0))
+        throw std::runtime_error("The flags do not have the shape of column " +
+                                 columnName);
+    }
+    if (ms->tableDesc().isColumn("TEMP_" + columnName))
+      throw std::runtime_error("Column TEMP_" + columnName +
+                               " already exists");
+  }
+
   watch.Reset();
   watch.Start();
   std::cout << "Replacing flagged values by NaNs...\n";
-- 
2.43.0


From a8f4fc29f9ca926ff83cc04b68e44e9de9622914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 37/47] fix: keep the static seed setting when a manager is
 made from the specification of another, such as in deep copies

---
 dyscostman.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index bbb8603..5fb9975 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -109,6 +109,9 @@ void DyscoStMan::setFromSpec(const casacore::Record &spec) {
     else
       _studentTNu = 0.0;
     _distributionTruncation = spec.asDouble("distributionTruncation");
+    // Only present when set
+    if (spec.description().fieldNumber("staticSeed") >= 0)
+      _staticSeed = spec.asBool("staticSeed");
   }
 }
 
@@ -163,6 +166,7 @@ casacore::Record DyscoStMan::dataManagerSpec() const {
   spec.define("normalization", normStr);
   spec.define("studentTNu", _studentTNu);
   spec.define("distributionTruncation", _distributionTruncation);
+  if (_staticSeed) spec.define("staticSeed", true);
   return spec;
 }
 
-- 
2.43.0


From 741d0bebdc2ae4868481b3eac69d7119aabd37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 38/47] fix: refuse distribution parameters for which no
 distinct levels can be calculated

---
 stochasticencoder.cc | 23 +++++++++++++++++++++++
 stochasticencoder.h  |  6 ++++++
 2 files changed, 29 insertions(+)

diff --git a/stochasticencoder.cc b/stochasticencoder.cc
index 32b051f..a4aa791 100644
--- a/stochasticencoder.cc
+++ b/stochasticencoder.cc
@@ -1,6 +1,8 @@
 #include "stochasticencoder.h"
+#include "dyscostmanerror.h"
 
 #include <gsl/gsl_cdf.h>
+#include <gsl/gsl_errno.h>
 #include <gsl/gsl_sf_erf.h>
 
 #include <cmath>
@@ -125,6 +127,10 @@ template <typename ValueType>
 void StochasticEncoder<ValueType>::initializeStudentT(double nu, double rms) {
   size_t quantCount = _encDictionary.size() + 1;
   _decDictionary.reserve(quantCount);
+  // GSL can not calculate the inverse for some values of nu, and its default
+  // error handler aborts the program. Without handler it returns a non-finite
+  // value, which is checked for below.
+  gsl_error_handler_t *errorHandler = gsl_set_error_handler_off();
   typename Dictionary::iterator encItem = _encDictionary.begin();
   typename Dictionary::iterator decItem = _decDictionary.begin();
   for (size_t i = 0; i != quantCount - 1; ++i) {
@@ -138,8 +144,10 @@ void StochasticEncoder<ValueType>::initializeStudentT(double nu, double rms) {
     *decItem = gsl_cdf_tdist_Pinv(val, nu) * rms;
     ++decItem;
   }
+  gsl_set_error_handler(errorHandler);
   *encItem = std::numeric_limits<ValueType>::max();
   *decItem = std::numeric_limits<ValueType>::quiet_NaN();
+  checkDictionaries();
 }
 
 template <typename ValueType>
@@ -168,6 +176,21 @@ void StochasticEncoder<ValueType>::initializeTruncatedGaussian(
   }
   *encItem = std::numeric_limits<ValueType>::max();
   *decItem = std::numeric_limits<ValueType>::quiet_NaN();
+  checkDictionaries();
+}
+
+template <typename ValueType>
+void StochasticEncoder<ValueType>::checkDictionaries() const {
+  // Written such that NaNs are refused too
+  for (size_t i = 0; i != _decDictionary.size(); ++i) {
+    const ValueType level = _decDictionary.value(i);
+    if (!std::isfinite(level) || !std::isfinite(_encDictionary.value(i)) ||
+        (i != 0 && !(level > _decDictionary.value(i - 1) &&
+                     _encDictionary.value(i) >= _encDictionary.value(i - 1))))
+      throw DyscoStManError(
+          "The parameters of the distribution are too extreme: they do not "
+          "result in distinct quantization levels");
+  }
 }
 
 template class StochasticEncoder<float>;
diff --git a/stochasticencoder.h b/stochasticencoder.h
index 30b4148..c73f490 100644
--- a/stochasticencoder.h
+++ b/stochasticencoder.h
@@ -160,6 +160,12 @@ class StochasticEncoder {
 
   void initializeTruncatedGaussian(double truncationValue, double rms);
 
+  /**
+   * Throws an exception when the dictionaries do not hold finite, increasing
+   * values, because the parameters of the distribution are too extreme.
+   */
+  void checkDictionaries() const;
+
   typedef long double num_t;
 
   static num_t cumulative(num_t x);
-- 
2.43.0


From 51e6ea439cdb795d9dfc8608105a84068367d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:23 +0000
Subject: [PATCH 39/47] fix: refuse files of which the header size is too small

---
 dyscostman.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyscostman.cc b/dyscostman.cc
index 5fb9975..c5445af 100644
--- a/dyscostman.cc
+++ b/dyscostman.cc
@@ -278,6 +278,9 @@ void DyscoStMan::readHeader() {
     col.UnserializeExtraHeader(*_fStream);
     curColumnHeaderOffset += cHeader.columnHeaderSize;
   }
+  if (_headerSize < curColumnHeaderOffset)
+    throw DyscoStManError("The header of file '" + fileName() +
+                          "' has an invalid size -- is the file corrupted?");
 }
 
 void DyscoStMan::initializeRowsPerBlock(size_t rowsPerBlock,
-- 
2.43.0


From 36497873295c253dff28ebe61dfc714b09eec9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:12 +0000
Subject: [PATCH 40/47] fix: do not overwrite another table when reordering a
 set

---
 stmanmodifier.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stmanmodifier.h b/stmanmodifier.h
index d522099..8508a87 100644
--- a/stmanmodifier.h
+++ b/stmanmodifier.h
@@ -3,6 +3,8 @@
 
 #include "dyscostman.h"
 
+#include <casacore/casa/OS/File.h>
+
 #include <casacore/ms/MeasurementSets/MeasurementSet.h>
 
 #include <casacore/tables/DataMan/StandardStMan.h>
@@ -178,7 +180,10 @@ class StManModifier {
     std::cout << "Reordering ms...\n";
     std::string tempName = msLocation;
     while (*tempName.rbegin() == '/') tempName.resize(tempName.size() - 1);
-    tempName += "temp";
+    // Do not overwrite something else that is stored there
+    do {
+      tempName += "temp";
+    } while (casacore::File(tempName).exists());
     ms->deepCopy(tempName, casacore::Table::New, true);
     ms->markForDelete();
 
-- 
2.43.0


From b3d144a1bc89489a6751815804144acde3be2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:23 +0000
Subject: [PATCH 41/47] fix: decompress does not leave renamed columns when a
 temporary name is in use

---
 decompress.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decompress.cc b/decompress.cc
index 27c80a7..77ff50d 100644
--- a/decompress.cc
+++ b/decompress.cc
@@ -21,6 +21,11 @@ int main(int argc, char *argv[]) {
     if (desc[i].dataManagerType() == "DyscoStMan")
       columnNames.push_back(desc[i].name());
   }
+  // Refuse before anything is changed
+  for (const std::string &columnName : columnNames) {
+    if (desc.isColumn("TEMP_" + columnName))
+      throw std::runtime_error("Column TEMP_" + columnName + " already exists");
+  }
 
   for (const std::string &columnName : columnNames) {
     const bool isWeight = desc[columnName].dataType() == casacore::TpFloat;
-- 
2.43.0


From 1b614b075f0b0b4706a33294a60fa1008b8c500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:14 +0000
Subject: [PATCH 42/47] fix: dscompress refuses truncation values without
 usable levels before changing the set

---
 dscompress.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dscompress.cc b/dscompress.cc
index 11c8525..5526d95 100644
--- a/dscompress.cc
+++ b/dscompress.cc
@@ -215,9 +215,13 @@ int main(int argc, char *argv[]) {
     throw std::runtime_error(
         "Unsupported bit rate (supported values are 2, 3, 4, 6, 8, 10, 12 and "
         "16)");
-  if (distribution == TruncatedGaussianDistribution &&
-      !(distributionTruncation > 0.0))
-    throw std::runtime_error("Invalid truncation value");
+  if (distribution == TruncatedGaussianDistribution) {
+    if (!(distributionTruncation > 0.0))
+      throw std::runtime_error("Invalid truncation value");
+    // Throws when the truncation value does not give usable levels
+    StochasticEncoder<float>::TruncatedGausEncoder(
+        1 << bitsPerFloat, distributionTruncation, 1.0);
+  }
 
   std::cout << "\tbits per data val = " << bitsPerFloat
             << "\n"
-- 
2.43.0


From a163c326dddc34c6e55f01bae73dad778e1401a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:20 +0000
Subject: [PATCH 43/47] fix: the finite component of a non-finite visibility
 does not determine scale factors

---
 aftimeblockencoder.cc  | 8 +++++---
 rftimeblockencoder.cc  | 5 +++--
 rowtimeblockencoder.cc | 3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aftimeblockencoder.cc b/aftimeblockencoder.cc
index 0dacd11..06bc265 100644
--- a/aftimeblockencoder.cc
+++ b/aftimeblockencoder.cc
@@ -134,7 +134,8 @@ void AFTimeBlockEncoder::fitToMaximum(
         const std::complex<double> *ptr = &row.visibilities[visIndex];
         double local_max = std::max(std::max(ptr->real(), ptr->imag()),
                                    -std::min(ptr->real(), ptr->imag()));
-        if (std::isfinite(local_max) && local_max > largest_component)
+        if (std::isfinite(ptr->real()) && std::isfinite(ptr->imag()) &&
+            local_max > largest_component)
           largest_component = local_max;
       }
     }
@@ -160,7 +161,8 @@ void AFTimeBlockEncoder::fitToMaximum(
                 &row.visibilities[channel * _nPol + polIndex];
             double local_max = std::max(std::max(ptr->real(), ptr->imag()),
                                        -std::min(ptr->real(), ptr->imag()));
-            if (std::isfinite(local_max) && local_max > largest_component)
+            if (std::isfinite(ptr->real()) && std::isfinite(ptr->imag()) &&
+                local_max > largest_component)
               largest_component = local_max;
           }
         }
@@ -193,7 +195,7 @@ void AFTimeBlockEncoder::fitToMaximum(
                 &row.visibilities[channel * _nPol + polIndex];
             double complMax = std::max(std::max(ptr->real(), ptr->imag()),
                                        -std::min(ptr->real(), ptr->imag()));
-            if (std::isfinite(complMax)) {
+            if (std::isfinite(ptr->real()) && std::isfinite(ptr->imag())) {
               if (complMax > maxCompPerAntenna[row.antenna1])
                 maxCompPerAntenna[row.antenna1] = complMax;
               if (complMax > maxCompPerAntenna[row.antenna2])
diff --git a/rftimeblockencoder.cc b/rftimeblockencoder.cc
index 307cf60..9445243 100644
--- a/rftimeblockencoder.cc
+++ b/rftimeblockencoder.cc
@@ -26,7 +26,7 @@ void RFTimeBlockEncoder::maximizeRows(std::vector<DBufferRow> &data, float *meta
       for (size_t channel = 0; channel != _nChannels; ++channel) {
         std::complex<double> v = row.visibilities[channel * _nPol + polIndex];
         double m = std::max(std::fabs(v.real()), std::fabs(v.imag()));
-        if (std::isfinite(m))
+        if (std::isfinite(v.real()) && std::isfinite(v.imag()))
           max_val = std::max(max_val, m);
       }
       const double factor = max_val == 0.0
@@ -52,7 +52,8 @@ void RFTimeBlockEncoder::maximizeChannels(std::vector<DBufferRow> &data, float *
     for (const DBufferRow &row : data) {
       const std::complex<double> *ptr = &row.visibilities[visIndex];
       const double local_max = std::max(std::fabs(ptr->real()), std::fabs(ptr->imag()));
-      if (std::isfinite(local_max) && local_max > largest_component)
+      if (std::isfinite(ptr->real()) && std::isfinite(ptr->imag()) &&
+          local_max > largest_component)
         largest_component = local_max;
     }
     const double factor =
diff --git a/rowtimeblockencoder.cc b/rowtimeblockencoder.cc
index 2f839d4..85ccb19 100644
--- a/rowtimeblockencoder.cc
+++ b/rowtimeblockencoder.cc
@@ -53,7 +53,8 @@ void RowTimeBlockEncoder::encode(const StochasticEncoder<float> &gausEncoder,
     for (size_t i = 0; i != visPerRow; ++i) {
       std::complex<double> v = row.visibilities[i];
       double m = std::max(std::fabs(v.real()), std::fabs(v.imag()));
-      if (std::isfinite(m)) maxVal = std::max(maxVal, m);
+      if (std::isfinite(v.real()) && std::isfinite(v.imag()))
+        maxVal = std::max(maxVal, m);
     }
     const double factor = (maxVal == 0.0) ? 1.0 : maxLevel / maxVal;
     for (size_t i = 0; i != visPerRow; ++i) row.visibilities[i] *= factor;
-- 
2.43.0


From 23515cccc706451922732436ef3f297f8c3422b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:20 +0000
Subject: [PATCH 44/47] fix: copy assignment of a UVector changes its size also
 when the capacity suffices

---
 uvector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uvector.h b/uvector.h
index f9dadd1..442550a 100644
--- a/uvector.h
+++ b/uvector.h
@@ -934,9 +934,9 @@ class UVector : private Alloc {
       iterator newStorage = allocate(n);
       deallocate();
       _begin = newStorage;
-      _end = _begin + n;
-      _endOfStorage = _end;
+      _endOfStorage = _begin + n;
     }
+    _end = _begin + n;
     std::copy(other._begin, other._begin + n, _begin);
     return *this;
   }
-- 
2.43.0


From a62c667056d5e67cd10a3c37ba3b153f7449eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:20 +0000
Subject: [PATCH 45/47] fix: UVector compiles with an allocator that is
 propagated on copy assignment or has no max_size()

---
 uvector.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/uvector.h b/uvector.h
index 442550a..18932e3 100644
--- a/uvector.h
+++ b/uvector.h
@@ -290,7 +290,9 @@ class UVector : private Alloc {
   size_t size() const noexcept { return _end - _begin; }
 
   /** @brief Get maximum number of elements that this container can hold. */
-  size_t max_size() const noexcept { return Alloc::max_size(); }
+  size_t max_size() const noexcept {
+    return std::allocator_traits<Alloc>::max_size(*this);
+  }
 
   /** @brief Change the number of elements in the container.
    * @details If the new size is larger than the current size, new values will
@@ -944,17 +946,18 @@ class UVector : private Alloc {
   // implementation of operator=(const&) with
   // propagate_on_container_copy_assignment
   UVector& assign_copy_from(const UVector<Tp, Alloc>& other, std::true_type) {
-    if (allocator_is_always_equal() || static_cast<Alloc&>(other) == static_cast<Alloc&>(*this)) {
+    if (allocator_is_always_equal() || static_cast<const Alloc&>(other) == static_cast<const Alloc&>(*this)) {
       assign_copy_from(other, std::false_type());
     } else {
       const size_t n = other.size();
-      iterator newStorage = static_cast<Alloc&>(other).allocate(n);
+      Alloc allocator(static_cast<const Alloc&>(other));
+      iterator newStorage = allocator.allocate(n);
       deallocate();
       _begin = newStorage;
       _end = _begin + n;
       _endOfStorage = _end;
       std::copy(other._begin, other._begin + n, _begin);
-      Alloc::operator=(static_cast<Alloc&>(other));
+      Alloc::operator=(allocator);
     }
     return *this;
   }
-- 
2.43.0


From 2d3ff3ca12566c8208e1e68e1092bfa3d0441710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:20 +0000
Subject: [PATCH 46/47] fix: move construction of a UVector with another
 allocator does not take over the storage

---
 uvector.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/uvector.h b/uvector.h
index 18932e3..ea53ad9 100644
--- a/uvector.h
+++ b/uvector.h
@@ -197,14 +197,11 @@ class UVector : private Alloc {
    * @param other Source UVector to be moved from.
    * @param allocator Allocator used for allocating and deallocating memory.
    */
-  UVector(UVector<Tp, Alloc>&& other, const allocator_type& allocator) noexcept
-      : Alloc(allocator),
-        _begin(other._begin),
-        _end(other._end),
-        _endOfStorage(other._endOfStorage) {
-    other._begin = nullptr;
-    other._end = nullptr;
-    other._endOfStorage = nullptr;
+  UVector(UVector<Tp, Alloc>&& other,
+          const allocator_type& allocator) noexcept(allocator_is_always_equal::value)
+      : Alloc(allocator), _begin(nullptr), _end(nullptr), _endOfStorage(nullptr) {
+    // Takes over the storage, unless it belongs to a different allocator
+    assign_move_from(std::move(other), std::false_type());
   }
 
   /** @brief Construct a UVector from a initializer list.
-- 
2.43.0


From 35ef9c158073840599741a908a947f1686191170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:20 +0000
Subject: [PATCH 47/47] fix: arguments of UVector members may be elements of
 the container itself

---
 uvector.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/uvector.h b/uvector.h
index ea53ad9..2946a3f 100644
--- a/uvector.h
+++ b/uvector.h
@@ -322,6 +322,7 @@ class UVector : private Alloc {
    * @param val New value of elements that get added to the container.
    */
   void resize(size_t n, const Tp& val) {
+    const Tp value(val);  // val may be an element of this container
     size_t oldSize = size();
     if (capacity() < n) {
       pointer newStorage = allocate(n);
@@ -331,7 +332,7 @@ class UVector : private Alloc {
       _endOfStorage = _begin + n;
     }
     _end = _begin + n;
-    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, val);
+    if (oldSize < n) std::uninitialized_fill<Tp*>(_begin + oldSize, _end, value);
   }
 
   /** @brief Get the number of elements the container can currently hold without
@@ -486,8 +487,9 @@ class UVector : private Alloc {
    * @param item Value of new element.
    */
   void push_back(const Tp& item) {
+    const Tp value(item);  // item may be an element of this container
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = item;
+    *_end = value;
     ++_end;
   }
 
@@ -517,6 +519,7 @@ class UVector : private Alloc {
    * @return Position of the new element.
    */
   iterator insert(const_iterator position, const Tp& item) {
+    const Tp value(item);  // item may be an element of this container
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -525,7 +528,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = item;
+    *const_cast<iterator>(position) = value;
     return const_cast<iterator>(position);
   }
 
@@ -540,6 +543,7 @@ class UVector : private Alloc {
    * @return Position of the first new element.
    */
   iterator insert(const_iterator position, size_t n, const Tp& val) {
+    const Tp value(val);  // val may be an element of this container
     if (capacity() < size() + n) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(n), index, n);
@@ -548,7 +552,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + n);
       _end += n;
     }
-    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, value);
     return const_cast<iterator>(position);
   }
 
@@ -674,6 +678,8 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   iterator emplace(const_iterator position, Args&&... args) {
+    // The arguments may refer to elements of this container
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) {
       size_t index = position - _begin;
       enlarge_for_insert(enlarge_size(1), index, 1);
@@ -682,7 +688,7 @@ class UVector : private Alloc {
       std::move_backward(const_cast<iterator>(position), _end, _end + 1);
       ++_end;
     }
-    *const_cast<iterator>(position) = Tp(std::forward<Args>(args)...);
+    *const_cast<iterator>(position) = std::move(value);
     return const_cast<iterator>(position);
   }
 
@@ -693,8 +699,10 @@ class UVector : private Alloc {
    */
   template <typename... Args>
   Tp& emplace_back(Args&&... args) {
+    // The arguments may refer to elements of this container
+    Tp value(std::forward<Args>(args)...);
     if (_end == _endOfStorage) enlarge(enlarge_size(1));
-    *_end = Tp(std::forward<Args>(args)...);
+    *_end = std::move(value);
     ++_end;
     return back();
   }
@@ -748,10 +756,11 @@ class UVector : private Alloc {
    * @param val Value of the new items.
    */
   void push_back(size_t n, const Tp& val) {
+    const Tp value(val);  // val may be an element of this container
     if (capacity() - size() < n) {
       enlarge(enlarge_size(n));
     }
-    std::uninitialized_fill_n<Tp*, size_t>(_end, n, val);
+    std::uninitialized_fill_n<Tp*, size_t>(_end, n, value);
     _end += n;
   }
 
-- 
2.43.0

