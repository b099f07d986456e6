From a8b59a8f656b44444d28842925578f7ea4683c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 01/45] fix: string table should not cache empty result for an
 id which is not assigned yet

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..ed92a15 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -76,6 +76,10 @@ class StringTable::StringTableImpl {
     if (cache_.exists(id))
       return cache_.get(id);
 
+    // NOTE do not cache result for unassigned id: it might be assigned later.
+    if (id >= offsets_.size())
+      return std::make_shared<std::string>();
+
     std::string str;
     readString(id, str);
     cache_.put(id, std::move(str));
-- 
2.43.0


From dd468dcea12a555c39537409cf115caa92fd7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:46 +0000
Subject: [PATCH 02/45] fix: string table should not give away ids which are
 not stored and should report i/o errors

---
 core/src/index/StringTable.cpp | 40 +++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index ed92a15..df4b966 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -5,6 +5,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <stdexcept>
 #include <unordered_map>
 
 using std::ios;
@@ -25,6 +26,9 @@ class StringTable::StringTableImpl {
       map_(),
       offsets_(),
       cache_(1024) {
+    if (!indexFile_.is_open() || !dataFile_.is_open())
+      throw std::runtime_error("Cannot open string table files: " + indexPath + ", " + dataPath);
+
     nextId_ = static_cast<std::uint32_t>(indexFile_.tellg()/(sizeof(std::uint32_t)*2));
     if (nextId_ > 0) {
       std::uint32_t count = nextId_;
@@ -42,6 +46,8 @@ class StringTable::StringTableImpl {
         offsets_.push_back(offset);
         map_[hash].push_back(i);
       }
+
+      ensureGood(indexFile_);
     }
   }
 
@@ -51,6 +57,9 @@ class StringTable::StringTableImpl {
 
     // TODO avoid lock there
     std::lock_guard<std::mutex> lock(lock_);
+    // NOTE an id can be given away only when its index entry is written.
+    flush(indexFile_);
+
     HashIdMap::iterator hashLookupResult = map_.find(hash);
     if (hashLookupResult!=map_.end()) {
       std::string data;
@@ -67,8 +76,7 @@ class StringTable::StringTableImpl {
       }
     }
 
-    writeString(hash, str);
-    return nextId_++;
+    return writeString(hash, str);
   }
 
   std::shared_ptr<std::string> getString(std::uint32_t id) {
@@ -95,26 +103,48 @@ class StringTable::StringTableImpl {
       std::uint32_t offset = offsets_[id];
       dataFile_.seekg(offset, ios::beg);
       std::getline(dataFile_, data, '\0');
+      ensureGood(dataFile_);
     }
   }
 
-  /// Writes string to index.
-  void writeString(std::uint32_t hash, const std::string &data) {
+  /// Writes string to index and returns its id.
+  std::uint32_t writeString(std::uint32_t hash, const std::string &data) {
     // get offset as file size
     dataFile_.seekg(0, ios::end);
+    ensureGood(dataFile_);
     std::uint32_t offset = static_cast<std::uint32_t>(dataFile_.tellg());
 
     // write string
     dataFile_.seekp(0, ios::end);
     dataFile_ << data.c_str() << '\0';
+    flush(dataFile_);
 
-    // write index entry
+    // write index entry: string should be already on disk at this point
     indexFile_.seekp(0, ios::end);
+    ensureGood(indexFile_);
     indexFile_.write(reinterpret_cast<char *>(&hash), sizeof(hash));
     indexFile_.write(reinterpret_cast<char *>(&offset), sizeof(offset));
 
     map_[hash].push_back(nextId_);
     offsets_.push_back(offset);
+    auto id = nextId_++;
+
+    flush(indexFile_);
+    return id;
+  }
+
+  /// Passes buffered data to OS.
+  static void flush(std::fstream &file) {
+    file.flush();
+    ensureGood(file);
+  }
+
+  /// Throws if last operation on the file failed, file can be used later.
+  static void ensureGood(std::fstream &file) {
+    if (file.good()) return;
+
+    file.clear();
+    throw std::runtime_error("Cannot access string table data.");
   }
 
   std::fstream indexFile_;
-- 
2.43.0


From 83643bc84fc50831d0a8a95f6ba23a3b5292014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 03/45] fix: bitmap which is read back should accept new bits
 and elements with more than 65535 points should be kept as is

---
 core/lib/ewah/ewah.h             |  8 ++++++
 core/src/index/BitmapStream.cpp  | 14 +++++++---
 core/src/index/ElementStream.cpp | 45 +++++++++++++++++++++++---------
 3 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/core/lib/ewah/ewah.h b/core/lib/ewah/ewah.h
index 6b3d987..c9d01ca 100644
--- a/core/lib/ewah/ewah.h
+++ b/core/lib/ewah/ewah.h
@@ -1129,6 +1129,14 @@ void EWAHBoolArray<uword>::read(std::istream &in, const bool savesizeinbits) {
   if (buffersize > 0)
     in.read(reinterpret_cast<char *>(&buffer[0]),
             static_cast<std::streamsize>(sizeof(uword) * buffersize));
+  // restore position of the last marker word: it is not stored,
+  // but needed to append new bits
+  lastRLW = 0;
+  for (size_t pointer = 0; pointer < buffer.size();) {
+    lastRLW = pointer;
+    pointer += static_cast<size_t>(
+        ConstRunningLengthWord<uword>(buffer[pointer]).getNumberOfLiteralWords()) + 1;
+  }
 }
 
 template <class uword>
diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..4431463 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -1,17 +1,23 @@
 #include "index/BitmapStream.hpp"
 
+#include <stdexcept>
+
 using namespace utymap::index;
 
 void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
   BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
-  {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key))) {
     bitset.read(in);
+    if (!in)
+      throw std::domain_error("Cannot read bitmap.");
     bitmap.emplace(key, bitset);
-  } while (in);
+  }
+
+  // only end of stream between two rows is expected
+  if (in.bad() || in.gcount() != 0)
+    throw std::domain_error("Cannot read bitmap.");
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
diff --git a/core/src/index/ElementStream.cpp b/core/src/index/ElementStream.cpp
index ba95909..da1a8bf 100644
--- a/core/src/index/ElementStream.cpp
+++ b/core/src/index/ElementStream.cpp
@@ -41,10 +41,34 @@ std::istream &operator>>(std::istream &stream, utymap::GeoCoordinate &coordinate
   return stream;
 }
 
+/// Size which does not fit into two bytes is written after this marker.
+const std::uint16_t BigSizeMarker = 0xFFFF;
+
+void writeSize(std::ostream &stream, std::size_t value) {
+  if (value < BigSizeMarker) {
+    auto size = static_cast<std::uint16_t>(value);
+    stream.write(reinterpret_cast<const char *>(&size), sizeof(size));
+    return;
+  }
+  auto size = static_cast<std::uint32_t>(value);
+  stream.write(reinterpret_cast<const char *>(&BigSizeMarker), sizeof(BigSizeMarker));
+  stream.write(reinterpret_cast<const char *>(&size), sizeof(size));
+}
+
+std::uint32_t readSize(std::istream &stream) {
+  std::uint16_t size = 0;
+  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  if (size != BigSizeMarker)
+    return size;
+
+  std::uint32_t bigSize = 0;
+  stream.read(reinterpret_cast<char *>(&bigSize), sizeof(bigSize));
+  return bigSize;
+}
+
 template<typename T>
 std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
-  std::uint16_t size = static_cast<std::uint16_t>(data.size());
-  stream.write(reinterpret_cast<const char *>(&size), sizeof(size));
+  writeSize(stream, data.size());
   for (const auto &item : data)
     stream << item;
   return stream;
@@ -52,8 +76,7 @@ std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
 
 template<typename T>
 std::istream &operator>>(std::istream &stream, std::vector<T> &data) {
-  std::uint16_t size = 0;
-  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  auto size = readSize(stream);
   data.resize(size);
   for (size_t i = 0; i < size; ++i)
     stream >> data[i];
@@ -78,8 +101,7 @@ struct ElementWriter : ElementVisitor {
 
   void visitRelation(const Relation &relation) override {
     stream_ << RelationType << relation.tags;
-    auto size = static_cast<std::uint16_t>(relation.elements.size());
-    stream_.write(reinterpret_cast<const char *>(&size), sizeof(size));
+    writeSize(stream_, relation.elements.size());
     for (const auto &element : relation.elements) {
       stream_.write(reinterpret_cast<const char *>(&element->id), sizeof(element->id));
       element->accept(*this);
@@ -96,8 +118,8 @@ class ElementReader final {
   }
 
   std::unique_ptr<Element> read() const {
-    char elementType;
-    stream_ >> elementType;
+    char elementType = -1;
+    stream_.get(elementType);
 
     switch (elementType) {
       case NodeType:return readNode();
@@ -131,11 +153,10 @@ class ElementReader final {
     auto relation = utymap::utils::make_unique<Relation>();
     stream_ >> relation->tags;
 
-    std::uint16_t elementSize = 0;
-    stream_.read(reinterpret_cast<char *>(&elementSize), sizeof(elementSize));
+    auto elementSize = readSize(stream_);
 
-    for (std::uint16_t i = 0; i < elementSize; ++i) {
-      std::uint64_t id;
+    for (std::uint32_t i = 0; i < elementSize; ++i) {
+      std::uint64_t id = 0;
       stream_.read(reinterpret_cast<char *>(&id), sizeof(id));
       auto element = read();
       element->id = id;
-- 
2.43.0


From 048b52da6cecb8267b9effdbfbac9e5f4f6c7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 04/45] fix: persistent store should stay consistent when
 process is killed, i/o fails or it is used by several threads

---
 core/shared/Storage.hpp                   |   7 +-
 core/src/index/ElementCollector.hpp       |  48 +++++
 core/src/index/PersistentElementStore.cpp | 250 ++++++++++++++++------
 3 files changed, 235 insertions(+), 70 deletions(-)
 create mode 100644 core/src/index/ElementCollector.hpp

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 750c241..969a076 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -113,7 +113,12 @@ public:
 
   /// Checks whether data is present in any registered stores for given quad key.
   bool hasData(int tileX, int tileY, int levelOfDetail) const {
-    return context_.geoStore.hasData(utymap::QuadKey(levelOfDetail, tileX, tileY));
+    bool result = false;
+    // NOTE no error callback: data which cannot be accessed is reported as missing.
+    ::safeExecute([&]() {
+      result = context_.geoStore.hasData(utymap::QuadKey(levelOfDetail, tileX, tileY));
+    }, [](const char *) {});
+    return result;
   }
 
 private:
diff --git a/core/src/index/ElementCollector.hpp b/core/src/index/ElementCollector.hpp
new file mode 100644
index 0000000..fa4d8bf
--- /dev/null
+++ b/core/src/index/ElementCollector.hpp
@@ -0,0 +1,48 @@
+#ifndef INDEX_ELEMENTCOLLECTOR_HPP_DEFINED
+#define INDEX_ELEMENTCOLLECTOR_HPP_DEFINED
+
+#include "entities/Node.hpp"
+#include "entities/Way.hpp"
+#include "entities/Area.hpp"
+#include "entities/Relation.hpp"
+#include "entities/ElementVisitor.hpp"
+
+#include <memory>
+#include <vector>
+
+namespace utymap {
+namespace index {
+
+/// Collects copies of visited elements.
+class ElementCollector final : public utymap::entities::ElementVisitor {
+ public:
+  using Elements = std::vector<std::shared_ptr<utymap::entities::Element>>;
+
+  explicit ElementCollector(Elements &elements) :
+      elements_(elements) {
+  }
+
+  void visitNode(const utymap::entities::Node &node) override {
+    elements_.push_back(std::make_shared<utymap::entities::Node>(node));
+  }
+
+  void visitWay(const utymap::entities::Way &way) override {
+    elements_.push_back(std::make_shared<utymap::entities::Way>(way));
+  }
+
+  void visitArea(const utymap::entities::Area &area) override {
+    elements_.push_back(std::make_shared<utymap::entities::Area>(area));
+  }
+
+  void visitRelation(const utymap::entities::Relation &relation) override {
+    elements_.push_back(std::make_shared<utymap::entities::Relation>(relation));
+  }
+
+ private:
+  Elements &elements_;
+};
+
+}
+}
+
+#endif // INDEX_ELEMENTCOLLECTOR_HPP_DEFINED
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..f1bb301 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -1,4 +1,5 @@
 #include "index/BitmapStream.hpp"
+#include "index/ElementCollector.hpp"
 #include "index/ElementStream.hpp"
 #include "index/BitmapIndex.hpp"
 #include "index/ElementGeometryVisitor.hpp"
@@ -6,10 +7,12 @@
 #include "index/PersistentElementStore.hpp"
 #include "utils/LruCache.hpp"
 
+#include <cerrno>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 #include <mutex>
-#include <tuple>
+#include <stdexcept>
 
 using namespace utymap;
 using namespace utymap::index;
@@ -50,19 +53,105 @@ struct QuadKeyData {
       bitmapData_(utymap::utils::make_unique<BitmapData>(bitmapPath)) {
     using std::ios;
     dataFile->open(dataPath, ios::in | ios::out | ios::binary | ios::app | ios::ate);
-    indexFile->open(indexPath, ios::in | ios::out | ios::binary | ios::app | ios::ate);
+    ensureGood(*dataFile, dataPath);
+
+    // NOTE data file is created first and removed first: remaining files do not make sense without it.
+    if (dataFile->tellg() == std::streampos(0)) {
+      removeFile(indexPath);
+      removeFile(bitmapPath);
+    }
+
+    // NOTE index entries are written at specific position at once.
+    indexFile->rdbuf()->pubsetbuf(nullptr, 0);
+    indexFile->open(indexPath, ios::in | ios::out | ios::binary);
+    if (!indexFile->is_open()) {
+      std::ofstream(indexPath, ios::binary | ios::app);
+      indexFile->clear();
+      indexFile->open(indexPath, ios::in | ios::out | ios::binary);
+    }
+    ensureGood(*indexFile, indexPath);
+  }
+
+  /// Gets total number of stored elements ignoring index entry which is not written completely.
+  std::uint32_t getCount() const {
+    indexFile->seekg(0, std::ios::end);
+    ensureGood(*indexFile, indexPath_);
+    return static_cast<std::uint32_t>(indexFile->tellg() / static_cast<std::streamoff>(IndexEntrySize));
+  }
+
+  /// Writes element and its index entry.
+  void writeElement(const Element &element, std::uint32_t order) const {
+    dataFile->seekp(0, std::ios::end);
+    ensureGood(*dataFile, dataPath_);
+    auto offset = static_cast<std::uint32_t>(dataFile->tellp());
+
+    // NOTE index entry should point to data which is already passed to OS.
+    ElementStream::write(*dataFile, element);
+    dataFile->flush();
+    ensureGood(*dataFile, dataPath_);
+
+    char entry[IndexEntrySize];
+    std::memcpy(entry, &element.id, sizeof(element.id));
+    std::memcpy(entry + sizeof(element.id), &offset, sizeof(offset));
+
+    indexFile->seekp(static_cast<std::streamoff>(order) * IndexEntrySize, std::ios::beg);
+    indexFile->write(entry, sizeof(entry));
+    indexFile->flush();
+    ensureGood(*indexFile, indexPath_);
+  }
+
+  /// Reads element by its order.
+  std::unique_ptr<Element> readElement(std::uint32_t order) const {
+    indexFile->seekg(static_cast<std::streamoff>(order) * IndexEntrySize, std::ios::beg);
+    char entry[IndexEntrySize];
+    indexFile->read(entry, sizeof(entry));
+    ensureGood(*indexFile, indexPath_);
+
+    std::uint64_t id;
+    std::uint32_t offset;
+    std::memcpy(&id, entry, sizeof(id));
+    std::memcpy(&offset, entry + sizeof(id), sizeof(offset));
+
+    dataFile->seekg(offset, std::ios::beg);
+    ensureGood(*dataFile, dataPath_);
+    auto element = ElementStream::read(*dataFile, id);
+    ensureGood(*dataFile, dataPath_);
+    return element;
   }
 
   BitmapData& getBitmap() const {
     if (bitmapData_->data.empty()) {
-      // TODO not thread safe!
+      errno = 0;
       std::fstream bitmapFile;
       bitmapFile.open(bitmapData_->path, std::ios::in | std::ios::binary);
-      BitmapStream::read(bitmapFile, bitmapData_->data);
+      if (!bitmapFile.is_open() && errno != ENOENT)
+        throw std::runtime_error("Cannot open " + bitmapData_->path);
+
+      if (bitmapFile.is_open()) {
+        BitmapIndex::Bitmap data;
+        BitmapStream::read(bitmapFile, data);
+        bitmapData_->data.swap(data);
+      }
     }
     return *bitmapData_;
   }
 
+  /// Saves bitmap to file.
+  void saveBitmap() const {
+    // NOTE always write the whole file here: use different file to keep old one untouched until it is done.
+    const std::string path = bitmapPath_ + ".tmp";
+    std::fstream bitmapFile(path, std::ios::out | std::ios::binary | std::ios::trunc);
+    BitmapStream::write(bitmapFile, bitmapData_->data);
+    bitmapFile.close();
+    ensureGood(bitmapFile, path);
+
+#ifdef _WIN32
+    std::remove(bitmapPath_.c_str());
+#endif
+    if (std::rename(path.c_str(), bitmapPath_.c_str()))
+      throw std::runtime_error("Cannot save " + bitmapPath_);
+  }
+
   QuadKeyData(const QuadKeyData &) = delete;
   QuadKeyData &operator=(const QuadKeyData &) = delete;
 
@@ -80,15 +169,28 @@ struct QuadKeyData {
 
   void erase() {
     closeAll();
-    if (std::remove(dataPath_.c_str())) logEraseError(dataPath_);
+    if (std::remove(dataPath_.c_str()))
+      throw std::runtime_error("Cannot erase " + dataPath_);
     if (std::remove(indexPath_.c_str())) logEraseError(indexPath_);
     if (std::remove(bitmapPath_.c_str())) logEraseError(bitmapPath_);
   }
 
 private:
+  static const std::size_t IndexEntrySize = sizeof(std::uint64_t) + sizeof(std::uint32_t);
+
   void closeAll() const {
-    if (dataFile != nullptr && dataFile->good()) dataFile->close();
-    if (indexFile != nullptr && indexFile->good()) indexFile->close();
+    if (dataFile != nullptr && dataFile->is_open()) dataFile->close();
+    if (indexFile != nullptr && indexFile->is_open()) indexFile->close();
+  }
+
+  static void removeFile(const std::string &path) {
+    if (std::remove(path.c_str()) && errno != ENOENT)
+      throw std::runtime_error("Cannot remove " + path);
+  }
+
+  static void ensureGood(const std::fstream &file, const std::string &path) {
+    if (!file.good())
+      throw std::runtime_error("Cannot access " + path);
   }
 
   static void logEraseError(const std::string &path) {
@@ -104,7 +206,6 @@ private:
 
 using Cache = utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator>;
 
-// TODO improve thread safety!
 class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  public:
   PersistentElementStoreImpl(const std::string &dataPath,
@@ -115,66 +216,70 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     cache_(12) {}
 
   void store(const Element &element, const QuadKey &quadKey) {
-    const auto &quadKeyData = getQuadKeyData(quadKey);
-    auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
-    auto fileSize = quadKeyData->indexFile->tellg();
-    auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
-
-    // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
-    quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
-    quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
-
-    // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
-    ElementStream::write(*quadKeyData->dataFile, element);
-
-    // write element search data
-    add(element, quadKey, order);
-    // TODO we always clean/write the whole file here.
-    std::fstream bitmapFile(quadKeyData->getBitmap().path, std::ios::out | std::ios::binary | std::ios::trunc);
-    BitmapStream::write(bitmapFile, quadKeyData->getBitmap().data);
+    execute([&]() {
+      const auto quadKeyData = getQuadKeyData(quadKey);
+      // NOTE make sure that existing search data is available before any change
+      quadKeyData->getBitmap();
+      auto order = quadKeyData->getCount();
+
+      // write element and its index
+      quadKeyData->writeElement(element, order);
+
+      // write element search data
+      add(element, quadKey, order);
+      quadKeyData->saveBitmap();
+    });
   }
 
   void search(const BitmapIndex::Query &query,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    ElementVisitorFilter filter(visitor, [&](const Element &element) {
-      return ElementGeometryVisitor::intersects(element, query.boundingBox);
+    ElementCollector::Elements elements;
+    execute([&]() {
+      ElementCollector collector(elements);
+      ElementVisitorFilter filter(collector, [&](const Element &element) {
+        return ElementGeometryVisitor::intersects(element, query.boundingBox);
+      });
+      BitmapIndex::search(query, filter);
     });
-    BitmapIndex::search(query, filter);
+    visit(elements, visitor, cancelToken);
   }
 
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    const auto &quadKeyData = getQuadKeyData(quadKey);
-    auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
-
-    quadKeyData->indexFile->seekg(0, std::ios::beg);
-    for (std::uint32_t i = 0; i < count; ++i) {
-      if (cancelToken.isCancelled()) break;
-
-      auto entry = readIndexEntry(*quadKeyData);
-      quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-      ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry ))->accept(visitor);
-    }
+    ElementCollector::Elements elements;
+    execute([&]() {
+      // NOTE do not create any file
+      if (!hasData(quadKey)) return;
+
+      const auto quadKeyData = getQuadKeyData(quadKey);
+      auto count = quadKeyData->getCount();
+      for (std::uint32_t i = 0; i < count; ++i) {
+        if (cancelToken.isCancelled()) break;
+        elements.push_back(quadKeyData->readElement(i));
+      }
+    });
+    visit(elements, visitor, cancelToken);
   }
 
   bool hasData(const QuadKey &quadKey) const override {
-    std::ifstream file(getFilePath(quadKey, DataFileExtension));
-    return file.good();
+    errno = 0;
+    const std::string path = getFilePath(quadKey, DataFileExtension);
+    std::ifstream file(path, std::ios::binary | std::ios::ate);
+    if (!file.is_open() && errno != 0 && errno != ENOENT)
+      throw std::runtime_error("Cannot open " + path);
+    return file.good() && file.tellg() > std::streampos(0);
   }
 
   void erase(const utymap::QuadKey &quadKey) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    {
-      std::lock_guard<std::mutex> lock(lock_);
-      quadKeyData->erase();
+    execute([&]() {
+      if (!hasData(quadKey)) return;
+
+      auto quadKeyData = getQuadKeyData(quadKey);
       cache_.clear();
-    }
+      quadKeyData->erase();
+    });
   }
 
   void erase(const utymap::BoundingBox &bbox, const utymap::LodRange &range) {
@@ -182,6 +287,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::mutex> lock(lock_);
     cache_.clear();
   }
 
@@ -189,14 +295,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void notify(const utymap::QuadKey& quadKey,
               const std::uint32_t order,
               ElementVisitor &visitor) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
-
-    quadKeyData->indexFile->seekg(offset, std::ios::beg);
-    auto entry = readIndexEntry(*quadKeyData);
-    quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-    ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry))->accept(visitor);
+    getQuadKeyData(quadKey)->readElement(order)->accept(visitor);
   }
 
   Bitmap& getBitmap(const utymap::QuadKey& quadKey) override {
@@ -204,10 +303,32 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
  private:
-  /// Gets quad key data.
-  std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
+  /// Executes operation on files exclusively.
+  template<typename Operation>
+  void execute(const Operation &operation) {
     std::lock_guard<std::mutex> lock(lock_);
+    try {
+      operation();
+    }
+    catch (...) {
+      // NOTE state of opened files and loaded data is unclear
+      cache_.clear();
+      throw;
+    }
+  }
+
+  /// Visits elements one by one.
+  static void visit(const ElementCollector::Elements &elements,
+                    ElementVisitor &visitor,
+                    const utymap::CancellationToken &cancelToken) {
+    for (const auto &element : elements) {
+      if (cancelToken.isCancelled()) break;
+      element->accept(visitor);
+    }
+  }
 
+  /// Gets quad key data.
+  std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
     if (cache_.exists(quadKey))
       return cache_.get(quadKey);
 
@@ -226,15 +347,6 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     return ss.str();
   }
 
-  /// Reads element info from index.
-  std::tuple<std::uint64_t, std::uint32_t> readIndexEntry(const QuadKeyData &quadKeyData) {
-    std::uint64_t id;
-    std::uint32_t offset;
-    quadKeyData.indexFile->read(reinterpret_cast<char *>(&id), sizeof(id));
-    quadKeyData.indexFile->read(reinterpret_cast<char *>(&offset), sizeof(offset));
-    return std::make_tuple(id, offset);
-  }
-
   const std::string dataPath_;
   std::mutex lock_;
   utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator> cache_;
-- 
2.43.0


From fdf634fe0fa51e9161d798c5b6e2b9fc335c7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 05/45] fix: in memory store should be usable from several
 threads

---
 core/src/index/InMemoryElementStore.cpp | 77 ++++++++++++-------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index e804289..8f63cec 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -2,46 +2,24 @@
 #include "entities/Way.hpp"
 #include "entities/Area.hpp"
 #include "entities/Relation.hpp"
+#include "index/ElementCollector.hpp"
 #include "index/ElementGeometryVisitor.hpp"
 #include "index/ElementVisitorFilter.hpp"
 #include "index/InMemoryElementStore.hpp"
 #include "index/BitmapIndex.hpp"
 
+#include <mutex>
+
 using namespace utymap;
 using namespace utymap::index;
 using namespace utymap::entities;
 using namespace utymap::mapcss;
 
 namespace {
-using Elements = std::vector<std::shared_ptr<Element>>;
+using Elements = ElementCollector::Elements;
 using ElementMap = std::map<QuadKey, Elements, QuadKey::Comparator>;
 using Bitmaps = std::map<QuadKey, BitmapIndex::Bitmap, QuadKey::Comparator>;
 
-class ElementMapVisitor : public ElementVisitor {
- public:
-  ElementMapVisitor(Elements &elements) :
-      elements_(elements) {
-  }
-
-  void visitNode(const utymap::entities::Node &node) override {
-    elements_.push_back(std::make_shared<Node>(node));
-  }
-
-  void visitWay(const utymap::entities::Way &way) override {
-    elements_.push_back(std::make_shared<Way>(way));
-  }
-
-  void visitArea(const utymap::entities::Area &area) override {
-    elements_.push_back(std::make_shared<Area>(area));
-  }
-
-  void visitRelation(const utymap::entities::Relation &relation) override {
-    elements_.push_back(std::make_shared<Relation>(relation));
-  }
- private:
-  Elements &elements_;
-};
-
 class InMemoryStringIndex : public BitmapIndex {
  public:
   InMemoryStringIndex(const StringTable &stringTable,
@@ -89,39 +67,49 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   void search(const BitmapIndex::Query &query,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    ElementVisitorFilter filter(visitor, [&](const Element &element) {
-      return ElementGeometryVisitor::intersects(element, query.boundingBox);
-    });
-    stringIndex_.search(query, filter);
+    Elements elements;
+    {
+      std::lock_guard<std::mutex> lock(lock_);
+      ElementCollector collector(elements);
+      ElementVisitorFilter filter(collector, [&](const Element &element) {
+        return ElementGeometryVisitor::intersects(element, query.boundingBox);
+      });
+      stringIndex_.search(query, filter);
+    }
+    visit(elements, visitor, cancelToken);
   }
 
   void search(const utymap::QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    auto it = begin(quadKey);
-    // No elements for this quad key
-    if (it == end())
-      return;
-
-    for (const auto &element : it->second) {
-      if (cancelToken.isCancelled()) break;
-      element->accept(visitor);
+    Elements elements;
+    {
+      std::lock_guard<std::mutex> lock(lock_);
+      auto it = begin(quadKey);
+      // No elements for this quad key
+      if (it == end())
+        return;
+      elements = it->second;
     }
+    visit(elements, visitor, cancelToken);
   }
 
   bool hasData(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::mutex> lock(lock_);
     return elementsMap_.find(quadKey)!=elementsMap_.end();
   }
 
   void store(const utymap::entities::Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto &elements = elementsMap_[quadKey];
 
     stringIndex_.add(element, quadKey, static_cast<std::uint32_t>(elements.size()));
-    ElementMapVisitor visitor(elements);
+    ElementCollector visitor(elements);
     element.accept(visitor);
   }
 
   void erase(const utymap::QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(lock_);
     elementsMap_.erase(quadKey);
     stringIndex_.erase(quadKey);
   }
@@ -131,6 +119,16 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
  private:
+  /// Visits elements one by one.
+  static void visit(const Elements &elements,
+                    ElementVisitor &visitor,
+                    const utymap::CancellationToken &cancelToken) {
+    for (const auto &element : elements) {
+      if (cancelToken.isCancelled()) break;
+      element->accept(visitor);
+    }
+  }
+
   ElementMap::const_iterator begin(const utymap::QuadKey &quadKey) const {
     return elementsMap_.find(quadKey);
   }
@@ -142,6 +140,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   const StringTable &stringTable_;
   ElementMap elementsMap_;
   InMemoryStringIndex stringIndex_;
+  mutable std::mutex lock_;
 };
 
 InMemoryElementStore::InMemoryElementStore(const StringTable &stringTable) :
-- 
2.43.0


From 7b8232118efc43e4a73a1b854507da05dd4a9dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 06/45] fix: failed import of a tile should not leave a part of
 its data

---
 core/src/index/GeoStore.cpp | 50 +++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 382be60..cc1868a 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -31,8 +31,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
-    elementStore->store(element, range, styleProvider);
+    getStore(storeKey).store(element, range, styleProvider);
   }
 
   void add(const std::string &storeKey,
@@ -40,13 +39,22 @@ class GeoStore::GeoStoreImpl final {
            const QuadKey &quadKey,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
-    add(path, cancelToken, [&](Element &element) {
-      return elementStore->store(element, quadKey, styleProvider);
-    });
+    auto &elementStore = getStore(storeKey);
+    bool isModified = false;
+    try {
+      add(path, cancelToken, [&](Element &element) {
+        isModified = true;
+        return elementStore.store(element, quadKey, styleProvider);
+      });
+    } catch (...) {
+      // NOTE do not keep a part of the data
+      if (isModified)
+        tryErase(elementStore, quadKey);
+      throw;
+    }
 
     if (cancelToken.isCancelled()) 
-      elementStore->erase(quadKey);
+      elementStore.erase(quadKey);
   }
 
   void add(const std::string &storeKey,
@@ -54,13 +62,13 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     auto bbox = add(path, cancelToken, [&](Element &element) {
-      return elementStore->store(element, range, styleProvider);
+      return elementStore.store(element, range, styleProvider);
     });
 
     if (cancelToken.isCancelled())
-      elementStore->erase(bbox, range);
+      elementStore.erase(bbox, range);
   }
 
   void add(const std::string &storeKey,
@@ -69,13 +77,13 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
-      return elementStore->store(element, bbox, range, styleProvider);
+      return elementStore.store(element, bbox, range, styleProvider);
     });
 
     if (cancelToken.isCancelled())
-      elementStore->erase(bbox, range);
+      elementStore.erase(bbox, range);
   }
 
   utymap::BoundingBox add(const std::string &path,
@@ -150,6 +158,22 @@ class GeoStore::GeoStoreImpl final {
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
+  ElementStore &getStore(const std::string &storeKey) const {
+    auto store = storeMap_.find(storeKey);
+    if (store == storeMap_.end())
+      throw std::invalid_argument("Store is not registered: " + storeKey);
+
+    return *store->second;
+  }
+
+  /// Erases data keeping the error which is being processed.
+  static void tryErase(ElementStore &elementStore, const QuadKey &quadKey) {
+    try {
+      elementStore.erase(quadKey);
+    } catch (const std::exception &) {
+    }
+  }
+
   static FormatType getFormatTypeFromPath(const std::string &path) {
     if (utymap::utils::endsWith(path, "pbf"))
       return FormatType::Pbf;
-- 
2.43.0


From 531b62fd8f64af3d059de99f0daa5899213cf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:06 +0000
Subject: [PATCH 07/45] fix: missing, unreadable or corrupt input file should
 be reported as error

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 43 +++++++++++++++++------
 core/src/index/GeoStore.cpp               | 21 +++++++++--
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index eb6c0c3..ed8e347 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -57,6 +57,9 @@ class OsmPbfParser final {
 
     // read size of blob-header
     if (!stream.read(reinterpret_cast<char *>(&sz), 4)) {
+      // NOTE this is the regular end only if there is nothing more to read
+      if (stream.bad() || stream.gcount() != 0)
+        throw std::domain_error("Unable to read size of blob header from file");
       finished_ = true;
       return result;
     }
@@ -64,7 +67,7 @@ class OsmPbfParser final {
     // little endian to big endian
     sz = (((sz & 0xff) << 24) + ((sz & 0xff00) << 8) + ((sz & 0xff0000) >> 8) + ((sz >> 24) & 0xff));
 
-    if (sz > MaxBlobHeaderSize)
+    if (sz < 0 || sz > MaxBlobHeaderSize)
       throw std::domain_error("Blob header size is bigger than allowed");
 
     stream.read(buffer_.data(), sz);
@@ -82,7 +85,7 @@ class OsmPbfParser final {
 
     std::int32_t sz = header.datasize();
 
-    if (sz > MaxUncompressedBlobSize)
+    if (sz < 0 || sz > MaxUncompressedBlobSize)
       throw std::domain_error("Blob size is bigger then allowed");
 
     if (!stream.read(buffer_.data(), sz))
@@ -94,13 +97,16 @@ class OsmPbfParser final {
     // uncompressed
     if (blob.has_raw()) {
       sz = static_cast<std::int32_t>(blob.raw().size());
-      memcpy(unpack_buffer_.data(), buffer_.data(), sz);
+      memcpy(unpack_buffer_.data(), blob.raw().data(), sz);
       return sz;
     }
 
     if (blob.has_zlib_data()) {
       sz = static_cast<std::int32_t>(blob.zlib_data().size());
 
+      if (blob.raw_size() < 0 || blob.raw_size() > MaxUncompressedBlobSize)
+        throw std::domain_error("Uncompressed blob size is bigger than allowed");
+
       z_stream z;
       z.next_in = (unsigned char *) blob.zlib_data().c_str();
       z.avail_in = sz;
@@ -113,8 +119,10 @@ class OsmPbfParser final {
       if (inflateInit(&z)!=Z_OK)
         throw std::domain_error("Failed to init zlib stream");
 
-      if (inflate(&z, Z_FINISH)!=Z_STREAM_END)
+      if (inflate(&z, Z_FINISH)!=Z_STREAM_END) {
+        inflateEnd(&z);
         throw std::domain_error("Failed to inflate zlib stream");
+      }
 
       if (inflateEnd(&z)!=Z_OK)
         throw std::domain_error("Failed to deinit zlib stream");
@@ -158,6 +166,9 @@ class OsmPbfParser final {
 
         int current_kv = 0;
 
+        if (dn.lat_size() != dn.id_size() || dn.lon_size() != dn.id_size())
+          throw std::domain_error("Dense nodes are inconsistent");
+
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
           lat += 0.000000001*(primblock.lat_offset() + (primblock.granularity()*dn.lat(i)));
@@ -165,12 +176,12 @@ class OsmPbfParser final {
 
           Tags tags;
           tags.reserve(2);
-          while (current_kv < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
+          while (current_kv + 1 < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
             auto key = dn.keys_vals(current_kv);
             auto val = dn.keys_vals(current_kv + 1);
             Tag tag;
-            tag.key = primblock.stringtable().s(key);
-            tag.value = primblock.stringtable().s(val);
+            tag.key = getString(primblock, key);
+            tag.value = getString(primblock, val);
             current_kv += 2;
             tags.push_back(tag);
           }
@@ -200,13 +211,15 @@ class OsmPbfParser final {
         OSMPBF::Relation rel = pg.relations(i);
         uint64_t id = 0;
         RelationMembers refs;
+        if (rel.types_size() != rel.memids_size() || rel.roles_sid_size() != rel.memids_size())
+          throw std::domain_error("Relation members are inconsistent");
         refs.reserve(rel.memids_size());
         for (int l = 0; l < rel.memids_size(); ++l) {
           id += rel.memids(l);
           RelationMember member;
           member.refId = id;
           member.type = parseType(rel, l);
-          member.role = primblock.stringtable().s(rel.roles_sid(l));
+          member.role = getString(primblock, rel.roles_sid(l));
           refs.push_back(member);
         }
 
@@ -218,6 +231,13 @@ class OsmPbfParser final {
     }
   }
 
+  static const std::string &getString(const OSMPBF::PrimitiveBlock &primblock, std::int64_t index) {
+    if (index < 0 || index >= primblock.stringtable().s_size())
+      throw std::domain_error("There is no such string in primitive block");
+
+    return primblock.stringtable().s(static_cast<int>(index));
+  }
+
   static std::string parseType(OSMPBF::Relation &rel, int index) {
     switch (rel.types(index)) {
       case OSMPBF::Relation::NODE:return "n";
@@ -229,13 +249,16 @@ class OsmPbfParser final {
 
   template<typename T>
   void setTags(const T &object, const OSMPBF::PrimitiveBlock &primblock, Tags &tags) {
+    if (object.keys_size() != object.vals_size())
+      throw std::domain_error("Tags are inconsistent");
+
     tags.reserve(object.keys_size());
     for (int i = 0; i < object.keys_size(); ++i) {
       Tag tag;
       auto key = object.keys(i);
       auto val = object.vals(i);
-      tag.key = primblock.stringtable().s(key);
-      tag.value = primblock.stringtable().s(val);
+      tag.key = getString(primblock, key);
+      tag.value = getString(primblock, val);
       tags.push_back(tag);
     }
   }
diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index cc1868a..cd2ce75 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -10,6 +10,9 @@
 #include "index/GeoStore.hpp"
 #include "index/InMemoryElementStore.hpp"
 
+#include <fstream>
+#include <stdexcept>
+
 using namespace utymap::entities;
 using namespace utymap::formats;
 using namespace utymap::index;
@@ -98,7 +101,8 @@ class GeoStore::GeoStoreImpl final {
       }
       case FormatType::Xml: {
         OsmXmlParser<OsmDataVisitor> parser;
-        std::ifstream xmlFile(path);
+        std::ifstream xmlFile;
+        open(xmlFile, path, std::ios::in);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(xmlFile, visitor);
         return visitor.complete();
@@ -106,7 +110,8 @@ class GeoStore::GeoStoreImpl final {
 #ifdef PBF_SUPPORTED_ENABLED
       case FormatType::Pbf: {
         OsmPbfParser<OsmDataVisitor> parser;
-        std::ifstream pbfFile(path, std::ios::in | std::ios::binary);
+        std::ifstream pbfFile;
+        open(pbfFile, path, std::ios::in | std::ios::binary);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(pbfFile, visitor);
         return visitor.complete();
@@ -114,7 +119,8 @@ class GeoStore::GeoStoreImpl final {
 #endif
       case FormatType::Json: {
         OsmJsonParser<OsmDataVisitor> parser(stringTable_);
-        std::ifstream jsonFile(path);
+        std::ifstream jsonFile;
+        open(jsonFile, path, std::ios::in);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(jsonFile, visitor);
         return visitor.complete();
@@ -166,6 +172,15 @@ class GeoStore::GeoStoreImpl final {
     return *store->second;
   }
 
+  /// Opens file with map data. Read error should not look like the end of the file.
+  static void open(std::ifstream &file, const std::string &path, std::ios::openmode mode) {
+    file.open(path, mode);
+    if (!file.is_open())
+      throw std::invalid_argument("Cannot open file: " + path);
+
+    file.exceptions(std::ios::badbit);
+  }
+
   /// Erases data keeping the error which is being processed.
   static void tryErase(ElementStore &elementStore, const QuadKey &quadKey) {
     try {
-- 
2.43.0


From 983308aefc8d8019bb2f954c9d8fbf8f57442c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 08/45] fix: osm data with missing nodes or recursive relations
 should not crash import

---
 core/src/formats/osm/BuildingProcessor.hpp    |  8 +++----
 .../src/formats/osm/MultipolygonProcessor.cpp |  3 +++
 core/src/formats/osm/OsmDataVisitor.cpp       | 22 ++++++++++++++-----
 core/src/formats/osm/OsmDataVisitor.hpp       |  5 ++++-
 core/src/formats/osm/RelationProcessor.hpp    |  8 +++----
 5 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/core/src/formats/osm/BuildingProcessor.hpp b/core/src/formats/osm/BuildingProcessor.hpp
index 8801232..d2ce34d 100644
--- a/core/src/formats/osm/BuildingProcessor.hpp
+++ b/core/src/formats/osm/BuildingProcessor.hpp
@@ -19,7 +19,7 @@ class BuildingProcessor {
   BuildingProcessor(utymap::entities::Relation &relation,
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context), resolve_(resolve) {
   }
 
@@ -40,8 +40,8 @@ class BuildingProcessor {
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    resolve_(*rel->second);
-    addToRelation(rel->second, role);
+    if (resolve_(*rel->second))
+      addToRelation(rel->second, role);
   }
 
  private:
@@ -58,7 +58,7 @@ class BuildingProcessor {
   utymap::entities::Relation &relation_;
   const utymap::formats::RelationMembers &members_;
   utymap::formats::OsmDataContext &context_;
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index a0e46bc..2eb5bc7 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -229,6 +229,9 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
       break;
     }
 
+    // NOTE rings contain each other: invalid data
+    if (outer==nullptr) return;
+
     // find inner rings of that ring
     CoordinateSequences inners;
     for (auto ring = rings.begin(); ring!=rings.end();) {
diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index ff98906..1aef823 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -31,8 +31,14 @@ void OsmDataVisitor::visitWay(std::uint64_t id, std::vector<std::uint64_t> &node
   std::vector<GeoCoordinate> coordinates;
   coordinates.reserve(nodeIds.size());
   for (auto nodeId : nodeIds) {
-    coordinates.push_back(context_.nodeMap[nodeId]->coordinate);
+    auto nodePair = context_.nodeMap.find(nodeId);
+    // NOTE extract can miss nodes outside of its area
+    if (nodePair != context_.nodeMap.end())
+      coordinates.push_back(nodePair->second->coordinate);
   }
+
+  if (coordinates.empty()) return;
+
   auto size = coordinates.size();
   if (size > 3 && coordinates[0]==coordinates[size - 1]) {
     coordinates.pop_back();
@@ -77,13 +83,15 @@ bool OsmDataVisitor::hasTag(const std::string &key,
   return utymap::utils::hasTag(stringTable_.getId(key), stringTable_.getId(value), tags);
 }
 
-void OsmDataVisitor::resolve(Relation &relation) {
-  if (cancelToken_.isCancelled()) return;
+bool OsmDataVisitor::resolve(Relation &relation) {
+  if (cancelToken_.isCancelled()) return false;
+
+  auto state = resolvedRelations_.emplace(relation.id, false);
+  // already resolved or being resolved: the latter means that relation refers to itself via its members
+  if (!state.second)
+    return state.first->second;
 
   auto membersPair = relationMembers_.find(relation.id);
-  // already resolved
-  if (relation.elements.size()==membersPair->second.size())
-    return;
 
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
@@ -94,6 +102,8 @@ void OsmDataVisitor::resolve(Relation &relation) {
   else {
     RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
   }
+
+  return resolvedRelations_[relation.id] = true;
 }
 
 utymap::BoundingBox OsmDataVisitor::complete() {
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 93eea1a..f64b66e 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -39,7 +39,8 @@ class OsmDataVisitor final {
  private:
 
   bool hasTag(const std::string &key, const std::string &value, const std::vector<utymap::entities::Tag> &tags) const;
-  void resolve(utymap::entities::Relation &relation);
+  /// Resolves members of relation. Returns false if this cannot be done, e.g. relation contains itself.
+  bool resolve(utymap::entities::Relation &relation);
 
   const utymap::index::StringTable &stringTable_;
   std::function<bool(utymap::entities::Element &)> add_;
@@ -47,6 +48,8 @@ class OsmDataVisitor final {
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
+  /// Relations whose resolving is started (false) or done (true).
+  std::unordered_map<std::uint64_t, bool> resolvedRelations_;
 };
 
 }
diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 3c2a0b2..24c04ce 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -19,7 +19,7 @@ class RelationProcessor final {
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
                     std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context),
         relationMembersMap_(relationMembersMap), resolve_(resolve) {
   }
@@ -47,8 +47,8 @@ class RelationProcessor final {
     if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
       return;
 
-    resolve_(*rel->second);
-    relation_.elements.push_back(rel->second);
+    if (resolve_(*rel->second))
+      relation_.elements.push_back(rel->second);
   }
 
  private:
@@ -83,7 +83,7 @@ class RelationProcessor final {
 
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap_;
 
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
-- 
2.43.0


From 738875f31a7dd64a91c982b657247bea1b32299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:11 +0000
Subject: [PATCH 09/45] fix: shape file parser should report unreadable
 attributes and release handles on error

---
 core/src/formats/shape/ShapeParser.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 914eb20..50ef11d 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -9,6 +9,7 @@
 #include "shapefile/shapefil.h"
 
 #include <iostream>
+#include <memory>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -21,7 +22,9 @@ class ShapeParser final {
  public:
 
   void parse(const std::string &path, Visitor &visitor) const {
-    SHPHandle shpFile = SHPOpen(path.c_str(), "rb");
+    // NOTE handles should be released in case of error too
+    std::unique_ptr<SHPInfo, decltype(&SHPClose)> shpHandle(SHPOpen(path.c_str(), "rb"), &SHPClose);
+    SHPHandle shpFile = shpHandle.get();
     if (shpFile==NULL)
       throw std::domain_error("Cannot open shp file.");
 
@@ -29,7 +32,8 @@ class ShapeParser final {
     double adfMinBound[4], adfMaxBound[4];
     SHPGetInfo(shpFile, &entityCount, &shapeType, adfMinBound, adfMaxBound);
 
-    DBFHandle dbfFile = DBFOpen(path.c_str(), "rb");
+    std::unique_ptr<DBFInfo, decltype(&DBFClose)> dbfHandle(DBFOpen(path.c_str(), "rb"), &DBFClose);
+    DBFHandle dbfFile = dbfHandle.get();
     if (dbfFile==NULL)
       throw std::domain_error("Cannot open dbf file.");
 
@@ -40,18 +44,13 @@ class ShapeParser final {
       throw std::domain_error("dbf file has different entity count.");
 
     for (int k = 0; k < entityCount; k++) {
-      SHPObject *shape = SHPReadObject(shpFile, k);
+      std::unique_ptr<SHPObject, decltype(&SHPDestroyObject)> shape(SHPReadObject(shpFile, k), &SHPDestroyObject);
       if (shape==NULL)
         throw std::domain_error("Unable to read shape:" + utymap::utils::toString(k));
 
       Tags tags = parseTags(dbfFile, k);
       visitShape(*shape, tags, visitor);
-
-      SHPDestroyObject(shape);
     }
-
-    DBFClose(dbfFile);
-    SHPClose(shpFile);
   }
 
  private:
@@ -62,6 +61,10 @@ class ShapeParser final {
     Tags tags;
     tags.reserve(static_cast<std::size_t>(fieldCount));
     for (int i = 0; i < fieldCount; i++) {
+      // NOTE shapelib does not distinguish unreadable attribute from empty one
+      if (DBFReadStringAttribute(dbfFile, k, i)==NULL)
+        throw std::domain_error("Unable to read attribute of shape:" + utymap::utils::toString(k));
+
       if (DBFIsAttributeNULL(dbfFile, k, i))
         continue;
 
@@ -120,6 +123,8 @@ class ShapeParser final {
       return;
     }
 
+    if (shape.nVertices < 1) return;
+
     std::vector<utymap::GeoCoordinate> coordinates;
     coordinates.reserve(static_cast<std::size_t>(shape.nVertices));
     for (int i = 0; i < shape.nVertices; ++i) {
@@ -134,8 +139,8 @@ class ShapeParser final {
     members.reserve(static_cast<std::size_t>(shape.nParts));
     std::size_t coordIndex = 0;
     for (std::size_t i = 0, partNum = 0; i < shape.nVertices; ++i) {
-      int startIndex = shape.panPartStart[partNum];
-      if (partNum < shape.nParts && startIndex==i) {
+      if (partNum < shape.nParts && shape.panPartStart[partNum]==i) {
+        int startIndex = shape.panPartStart[partNum];
         coordIndex = static_cast<std::size_t>(partNum);
         members.push_back(PolygonMember());
         // TODO check inner/outer? Check whether this flag is true for closed polygon only
-- 
2.43.0


From b5a18e7416cd5c6c57579f580031807bc4911af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 10/45] fix: clipper should not hide lack of memory

---
 core/lib/clipper/clipper.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/lib/clipper/clipper.cpp b/core/lib/clipper/clipper.cpp
index 8ad2bf7..02f14b3 100644
--- a/core/lib/clipper/clipper.cpp
+++ b/core/lib/clipper/clipper.cpp
@@ -41,6 +41,7 @@
 #include "clipper.hpp"
 #include <cmath>
 #include <algorithm>
+#include <new>
 
 namespace ClipperLib {
 
@@ -1443,6 +1444,15 @@ bool Clipper::ExecuteInternal()
       botY = topY;
     } while (!m_Scanbeam.empty() || m_CurrentLM != m_MinimaList.end());
   }
+  catch(const std::bad_alloc &)
+  {
+    //the caller has to know that the result is not complete
+    ClearJoins();
+    ClearGhostJoins();
+    DisposeAllOutRecs();
+    m_ExecuteLocked = false;
+    throw;
+  }
   catch(...) 
   {
     succeeded = false;
@@ -2712,6 +2722,12 @@ bool Clipper::ProcessIntersections(const cInt topY)
     if (IlSize == 1 || FixupIntersectionOrder()) ProcessIntersectList();
     else return false;
   }
+  catch(const std::bad_alloc &)
+  {
+    m_SortedEdges = 0;
+    DisposeIntersectNodes();
+    throw;
+  }
   catch(...) 
   {
     m_SortedEdges = 0;
-- 
2.43.0


From d1fc013f29428898b017fc7383f7b0a6bc7b2030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 11/45] fix: elevation should not depend on order of requests
 and should be readable from several threads

---
 core/shared/Search.hpp                        | 11 ++--
 core/src/heightmap/GridElevationProvider.hpp  | 49 ++++++++--------
 core/src/heightmap/SrtmElevationProvider.hpp  | 57 +++++++++++--------
 .../Elevation/SrtmElevationDataProvider.cs    |  7 ++-
 4 files changed, 69 insertions(+), 55 deletions(-)

diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index 6584be8..cc2cab5 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -119,15 +119,16 @@ private:
 
     void visitRelation(const utymap::entities::Relation &relation) override {
       // TODO return geometry
-      visitElement(relation, Coordinates{ { 0, 0 } });
+      // NOTE this is not real location, so it has no elevation
+      visitElement(relation, Coordinates{ { 0, 0 } }, false);
     }
   private:
     void visitElement(const utymap::entities::Element &element,
-      const Coordinates &coordinates) {
+      const Coordinates &coordinates, bool hasElevation = true) {
       auto ctags = getTags(element);
       auto cstyles = getStyles(element);
 
-      fillVertices(coordinates);
+      fillVertices(coordinates, hasElevation && eleProvider_ != nullptr);
 
       elementCallback_(tag_, element.id,
         ctags.data(), static_cast<int>(ctags.size()),
@@ -180,13 +181,13 @@ private:
     }
 
     /// Converts geometry.
-    void fillVertices(const Coordinates &coordinates) {
+    void fillVertices(const Coordinates &coordinates, bool hasElevation) {
       vertices_.reserve(coordinates.size() * 3);
       for (std::size_t i = 0; i < coordinates.size(); ++i) {
         const utymap::GeoCoordinate coordinate = coordinates[i];
         vertices_.push_back(coordinate.longitude);
         vertices_.push_back(coordinate.latitude);
-        vertices_.push_back(eleProvider_ == nullptr ? 0 : eleProvider_->getElevation(quadKey_, coordinate));
+        vertices_.push_back(hasElevation ? eleProvider_->getElevation(quadKey_, coordinate) : 0);
       }
     }
 
diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 29a6b14..ee9c6a4 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -46,31 +46,27 @@ class GridElevationProvider final : public ElevationProvider {
 
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    auto data = data_.find(quadKey);
-    if (data==data_.end()) {
-      preload(quadKey);
-      data = data_.find(quadKey);
-    }
+    const auto &data = getData(quadKey);
 
-    int resolution = data->second.resolution;
+    int resolution = data.resolution;
 
-    int x = static_cast<int>(longitude*Scale) - data->second.xStart;
-    int y = static_cast<int>(latitude*Scale) - data->second.yStart;
+    int x = static_cast<int>(longitude*Scale) - data.xStart;
+    int y = static_cast<int>(latitude*Scale) - data.yStart;
 
-    int x0 = clamp(x/data->second.xStep, 0, resolution);
-    int y0 = clamp(y/data->second.yStep, 0, resolution);
+    int x0 = clamp(x/data.xStep, 0, resolution);
+    int y0 = clamp(y/data.yStep, 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data->second.xStep)/data->second.xStep;
-    double dy = static_cast<double>(y - y0*data->second.yStep)/data->second.yStep;
+    double dx = static_cast<double>(x - x0*data.xStep)/data.xStep;
+    double dy = static_cast<double>(y - y0*data.yStep)/data.yStep;
 
     int cellSize = resolution + 1;
-    int height2 = data->second.heights[x0 + y0*cellSize];
-    int height0 = data->second.heights[x0 + y1*cellSize];
-    int height3 = data->second.heights[x1 + y0*cellSize];
-    int height1 = data->second.heights[x1 + y1*cellSize];
+    int height2 = data.heights[x0 + y0*cellSize];
+    int height0 = data.heights[x0 + y1*cellSize];
+    int height3 = data.heights[x1 + y0*cellSize];
+    int height1 = data.heights[x1 + y1*cellSize];
 
     // Bilinear interpolation
     // h0------------h1
@@ -90,15 +86,17 @@ class GridElevationProvider final : public ElevationProvider {
     return std::max(lower, std::min(n, upper));
   }
 
-  /// Preloads data for given quadkey.
-  void preload(const utymap::QuadKey &quadKey) const {
+  /// Gets data for given quadkey, loads it if necessary.
+  /// NOTE data is never changed or removed once it is loaded.
+  const EleData &getData(const utymap::QuadKey &quadKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (data_.find(quadKey)!=data_.end())
-      return;
+    auto loaded = data_.find(quadKey);
+    if (loaded!=data_.end())
+      return loaded->second;
 
     std::string filePath = getFilePath(quadKey);
-    std::fstream file(filePath);
+    std::ifstream file(filePath);
     if (!file.good())
       throw std::invalid_argument(std::string("Cannot find elevation file:") + filePath);
 
@@ -113,18 +111,21 @@ class GridElevationProvider final : public ElevationProvider {
 
     data.heights.shrink_to_fit();
 
-    if (data.heights.empty())
+    data.resolution = static_cast<int>(std::sqrt(data.heights.size())) - 1;
+
+    // NOTE part of the grid should not be used as it would be a different grid
+    if (file.bad() || data.resolution < 1 ||
+        data.heights.size()!=static_cast<std::size_t>(data.resolution + 1)*(data.resolution + 1))
       throw std::domain_error("Cannot get elevation data from:" + filePath);
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
 
-    data.resolution = static_cast<int>(std::sqrt(data.heights.size())) - 1;
     data.xStart = static_cast<int>(bbox.minPoint.longitude*Scale);
     data.yStart = static_cast<int>(bbox.minPoint.latitude*Scale);
     data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
     data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
 
-    data_.emplace(quadKey, std::move(data));
+    return data_.emplace(quadKey, std::move(data)).first->second;
   }
 
   std::string getFilePath(const QuadKey &quadKey) const {
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 2a308e2..dfee0ff 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -59,17 +59,20 @@ class SrtmElevationProvider final : public ElevationProvider {
 
  private:
 
-  void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
+  /// Gets cell with given key, loads all cells of quadkey if necessary.
+  /// NOTE cell is never changed or removed once it is loaded.
+  const HgtCell &getCell(const utymap::QuadKey &quadKey, const HgtCellKey &hgtCellKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (cells_.find(hgtCellKey)!=cells_.end())
-      return;
+    auto loaded = cells_.find(hgtCellKey);
+    if (loaded!=cells_.end())
+      return loaded->second;
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-    int minLat = static_cast<int>(bbox.minPoint.latitude);
-    int minLon = static_cast<int>(bbox.minPoint.longitude);
-    int maxLat = static_cast<int>(bbox.maxPoint.latitude);
-    int maxLon = static_cast<int>(bbox.maxPoint.longitude);
+    int minLat = toCell(bbox.minPoint.latitude);
+    int minLon = toCell(bbox.minPoint.longitude);
+    int maxLat = toCell(bbox.maxPoint.latitude);
+    int maxLon = toCell(bbox.maxPoint.longitude);
 
     int latDiff = maxLat - minLat;
     int lonDiff = maxLon - minLon;
@@ -81,27 +84,24 @@ class SrtmElevationProvider final : public ElevationProvider {
         if (cells_.find(cellKey)!=cells_.end())
           continue;
 
-        std::string path = getFilePath(cellKey);
-        HgtCell cell = readCell(path);
-        cells_.emplace(cellKey, readCell(path));
+        cells_.emplace(cellKey, readCell(getFilePath(cellKey)));
       }
+
+    // NOTE location can be outside of quadkey, e.g. if geometry is not clipped
+    loaded = cells_.find(hgtCellKey);
+    return loaded!=cells_.end()
+      ? loaded->second
+      : cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey))).first->second;
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
-    int latDec = static_cast<int>(latitude);
-    int lonDec = static_cast<int>(longitude);
+    int latDec = toCell(latitude);
+    int lonDec = toCell(longitude);
 
     double secondsLat = (latitude - latDec)*3600;
     double secondsLon = (longitude - lonDec)*3600;
 
-    HgtCellKey hgtCellKey(latDec, lonDec);
-    auto cellPtr = cells_.find(hgtCellKey);
-    if (cellPtr==cells_.end()) {
-      preload(quadKey, hgtCellKey);
-      cellPtr = cells_.find(hgtCellKey);
-    }
-
-    const auto &cell = cellPtr->second;
+    const auto &cell = getCell(quadKey, HgtCellKey(latDec, lonDec));
 
     // load tile
     //X corresponds to x/y values,
@@ -140,13 +140,19 @@ class SrtmElevationProvider final : public ElevationProvider {
     return height0*dy*(1 - dx) + height1*dy*(dx) + height2*(1 - dy)*(1 - dx) + height3*(1 - dy)*dx;
   }
 
+  /// Gets coordinate of the south-west corner of the cell.
+  static int toCell(double coordinate) {
+    return static_cast<int>(std::floor(coordinate));
+  }
+
   static int readPx(const HgtCell &cell, int y, int x) {
     int pos = cell.offset + 2*(x - cell.totalPx*y);
-    return (cell.data[pos]) << 8 | (cell.data[pos + 1]);
+    // NOTE height is signed big-endian integer, so only the first byte has sign
+    return static_cast<signed char>(cell.data[pos])*256 + static_cast<unsigned char>(cell.data[pos + 1]);
   }
 
   static HgtCell readCell(const std::string &path) {
-    std::fstream file(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::app);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     file.seekg(0, std::ios::end);
     auto size = file.tellg();
 
@@ -169,6 +175,9 @@ class SrtmElevationProvider final : public ElevationProvider {
     std::vector<char> data((std::istreambuf_iterator<char>(file)),
                            (std::istreambuf_iterator<char>()));
 
+    if (data.size()!=static_cast<std::size_t>(size))
+      throw std::domain_error(std::string("Cannot read srtm file:") + path);
+
     return HgtCell(totalPx, secondsPerPx, data);
   }
 
@@ -176,9 +185,9 @@ class SrtmElevationProvider final : public ElevationProvider {
     std::ostringstream stream;
     stream << dataPath_
            << std::setfill('0')
-           << (key.lat > 0 ? 'N' : 'S')
+           << (key.lat >= 0 ? 'N' : 'S')
            << std::setw(2) << std::abs(key.lat) << std::setw(0)
-           << (key.lon > 0 ? 'E' : 'W')
+           << (key.lon >= 0 ? 'E' : 'W')
            << std::setw(3) << std::abs(key.lon)
            << ".hgt";
     return stream.str();
diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index fe22b65..4519684 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -92,9 +92,12 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetFileNamePrefix(GeoCoordinate coordinate)
         {
+            // NOTE cell is named by its south-west corner
+            var latitude = (int) Math.Floor(coordinate.Latitude);
+            var longitude = (int) Math.Floor(coordinate.Longitude);
             return String.Format("{0}{1:00}{2}{3:000}",
-                coordinate.Latitude > 0 ? 'N' : 'S', Math.Abs((int)coordinate.Latitude),
-                coordinate.Longitude > 0 ? 'E' : 'W', Math.Abs((int)coordinate.Longitude));
+                latitude >= 0 ? 'N' : 'S', Math.Abs(latitude),
+                longitude >= 0 ? 'E' : 'W', Math.Abs(longitude));
         }
     }
 }
-- 
2.43.0


From 107b8da721a15fe50d8a98f441a610023687a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:12 +0000
Subject: [PATCH 12/45] fix: errors should not leave native api as exceptions

---
 core/shared/Common.hpp        |  3 +-
 core/shared/Configuration.hpp | 25 ++++++----
 core/shared/ExportLib.cpp     |  1 +
 core/shared/Search.hpp        |  7 ++-
 core/shared/Storage.hpp       | 88 ++++++++++++++++++-----------------
 5 files changed, 72 insertions(+), 52 deletions(-)

diff --git a/core/shared/Common.hpp b/core/shared/Common.hpp
index 4c59d7e..4db3fba 100644
--- a/core/shared/Common.hpp
+++ b/core/shared/Common.hpp
@@ -59,7 +59,8 @@ struct Context {
 };
 
 /// Executes function and catches exception if it occurs.
-inline void safeExecute(const std::function<void()> &action, OnError *errorCallback) {
+template<typename Action>
+inline void safeExecute(const Action &action, OnError *errorCallback) {
   try {
     action();
   }
diff --git a/core/shared/Configuration.hpp b/core/shared/Configuration.hpp
index dba68b4..ca20dda 100644
--- a/core/shared/Configuration.hpp
+++ b/core/shared/Configuration.hpp
@@ -24,23 +24,32 @@ public:
   }
 
   /// Registers stylesheet.
+  /// NOTE no error callback: error is reported once stylesheet is used.
   void registerStylesheet(const char *path, OnNewDirectory *directoryCallback) const {
-    auto &styleProvider = context_.getStyleProvider(path);
-    std::string root = context_.indexPath + "/cache/" + styleProvider.getTag() + '/';
-    createDataDirs(root, directoryCallback);
+    ::safeExecute([&]() {
+      auto &styleProvider = context_.getStyleProvider(path);
+      std::string root = context_.indexPath + "/cache/" + styleProvider.getTag() + '/';
+      createDataDirs(root, directoryCallback);
+    }, [](const char *) {});
   }
 
   /// Registers new in-memory store.
+  /// NOTE no error callback: error is reported once store is used.
   void registerInMemoryStore(const char *key) const {
-    context_.geoStore.registerStore(key,
-      utymap::utils::make_unique<utymap::index::InMemoryElementStore>(context_.stringTable));
+    ::safeExecute([&]() {
+      context_.geoStore.registerStore(key,
+        utymap::utils::make_unique<utymap::index::InMemoryElementStore>(context_.stringTable));
+    }, [](const char *) {});
   }
 
   /// Registers new persistent store.
+  /// NOTE no error callback: error is reported once store is used.
   void registerPersistentStore(const char *key, const char *dataPath, OnNewDirectory *directoryCallback) const {
-    context_.geoStore.registerStore(key,
-      utymap::utils::make_unique<utymap::index::PersistentElementStore>(dataPath, context_.stringTable));
-    createDataDirs(dataPath, directoryCallback);
+    ::safeExecute([&]() {
+      context_.geoStore.registerStore(key,
+        utymap::utils::make_unique<utymap::index::PersistentElementStore>(dataPath, context_.stringTable));
+      createDataDirs(dataPath, directoryCallback);
+    }, [](const char *) {});
   }
 
   /// Enables or disables mesh caching.
diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index ded0428..52ed448 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -18,6 +18,7 @@ extern "C"
 /************* Lifecycle API *****************/
 void EXPORT_API disconnect() {
   delete applicationPtr;
+  applicationPtr = nullptr;
 }
 
 void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index cc2cab5..54f1022 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -71,13 +71,18 @@ public:
   }
 
   /// Gets elevation for given geocoordinate using specific elevation provider.
+  /// NOTE no error callback: elevation which cannot be determined is reported as zero.
   double getElevationByQuadKey(int tileX, int tileY, int levelOfDetail, // quadkey info
                                int eleDataType,                         // elevation data type
                                double latitude, double longitude) const {
     utymap::QuadKey quadKey(levelOfDetail, tileX, tileY);
     auto eleProviderType = static_cast<ElevationDataType>(eleDataType);
     utymap::GeoCoordinate coordinate(latitude, longitude);
-    return context_.getElevationProvider(quadKey, eleProviderType).getElevation(quadKey, coordinate);
+    double elevation = 0;
+    ::safeExecute([&]() {
+      elevation = context_.getElevationProvider(quadKey, eleProviderType).getElevation(quadKey, coordinate);
+    }, [](const char *) {});
+    return elevation;
   }
 
 private:
diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 969a076..c335a88 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -69,46 +69,53 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
-    utymap::LodRange lod(startLod, endLod);
-    std::vector<utymap::entities::Tag> elementTags;
-    elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
-    for (std::size_t i = 0; i < tagLength; i += 2) {
-      auto keyId = getStringId(tags[i]);
-      auto valueId = getStringId(tags[i + 1]);
-      elementTags.push_back(utymap::entities::Tag(keyId, valueId));
-    }
+    ::safeExecute([&]() {
+      utymap::LodRange lod(startLod, endLod);
+      std::vector<utymap::entities::Tag> elementTags;
+      elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
+      for (int i = 0; i + 1 < tagLength; i += 2) {
+        auto keyId = getStringId(tags[i]);
+        auto valueId = getStringId(tags[i + 1]);
+        elementTags.push_back(utymap::entities::Tag(keyId, valueId));
+      }
+      // NOTE: tags should be sorted to speed up mapcss styling
+      std::sort(elementTags.begin(), elementTags.end());
+
+      std::vector<utymap::GeoCoordinate> coordinates;
+      coordinates.reserve(static_cast<std::size_t>(vertexLength / 2));
+      for (int i = 0; i + 1 < vertexLength; i += 2) {
+        coordinates.push_back(utymap::GeoCoordinate(vertices[i], vertices[i + 1]));
+      }
 
-    // Node
-    if (vertexLength / 2 == 1) {
-      utymap::entities::Node node;
-      node.id = id;
-      node.tags = elementTags;
-      node.coordinate = utymap::GeoCoordinate(vertices[0], vertices[1]);
-      addToStore(key, styleFile, node, lod, errorCallback, cancellationToken);
-      return;
-    }
+      if (coordinates.empty())
+        throw std::invalid_argument("Element has no vertices.");
 
-    std::vector<utymap::GeoCoordinate> coordinates;
-    coordinates.reserve(static_cast<std::size_t>(vertexLength / 2));
-    for (int i = 0; i < vertexLength; i += 2) {
-      coordinates.push_back(utymap::GeoCoordinate(vertices[i], vertices[i + 1]));
-    }
+      // Node
+      if (coordinates.size() == 1) {
+        utymap::entities::Node node;
+        node.id = id;
+        node.tags = elementTags;
+        node.coordinate = coordinates[0];
+        addToStore(key, styleFile, node, lod, *cancellationToken);
+        return;
+      }
 
-    // Way or Area
-    if (coordinates[0] == coordinates[coordinates.size() - 1]) {
-      utymap::entities::Area area;
-      area.id = id;
-      area.coordinates = coordinates;
-      area.tags = elementTags;
-      addToStore(key, styleFile, area, lod, errorCallback, cancellationToken);
-    }
-    else {
-      utymap::entities::Way way;
-      way.id = id;
-      way.coordinates = coordinates;
-      way.tags = elementTags;
-      addToStore(key, styleFile, way, lod, errorCallback, cancellationToken);
-    }
+      // Way or Area
+      if (coordinates[0] == coordinates[coordinates.size() - 1]) {
+        utymap::entities::Area area;
+        area.id = id;
+        area.coordinates = coordinates;
+        area.tags = elementTags;
+        addToStore(key, styleFile, area, lod, *cancellationToken);
+      }
+      else {
+        utymap::entities::Way way;
+        way.id = id;
+        way.coordinates = coordinates;
+        way.tags = elementTags;
+        addToStore(key, styleFile, way, lod, *cancellationToken);
+      }
+    }, errorCallback);
   }
 
   /// Checks whether data is present in any registered stores for given quad key.
@@ -127,11 +134,8 @@ private:
                   const char *styleFile,
                   const utymap::entities::Element &element,
                   const utymap::LodRange &range,
-                  OnError *errorCallback,
-                  utymap::CancellationToken *cancelToken) {
-    safeExecute([&]() {
-      context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), *cancelToken);
-    }, errorCallback);
+                  const utymap::CancellationToken &cancelToken) {
+    context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), cancelToken);
   }
 
   /// Gets id for the string.
-- 
2.43.0


From 11a38691d96ca519e6fd078a182b55f5c49383ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 13/45] fix: triangulation should not share state between
 threads

---
 core/lib/triangle/triangle.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/lib/triangle/triangle.c b/core/lib/triangle/triangle.c
index 66af41a..4535cc9 100644
--- a/core/lib/triangle/triangle.c
+++ b/core/lib/triangle/triangle.c
@@ -647,18 +647,26 @@ struct memorypool {
 };
 
 
+/* Every triangulation sets global state below, so each thread has its own.  */
+
+#ifdef _MSC_VER
+#define THREADLOCAL __declspec(thread)
+#else
+#define THREADLOCAL __thread
+#endif
+
 /* Global constants.                                                         */
 
-REAL splitter;       /* Used to split REAL factors for exact multiplication. */
-REAL epsilon;                             /* Floating-point machine epsilon. */
-REAL resulterrbound;
-REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
-REAL iccerrboundA, iccerrboundB, iccerrboundC;
-REAL o3derrboundA, o3derrboundB, o3derrboundC;
+THREADLOCAL REAL splitter; /* Used to split REAL factors for exact multiplication. */
+THREADLOCAL REAL epsilon;                 /* Floating-point machine epsilon. */
+THREADLOCAL REAL resulterrbound;
+THREADLOCAL REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
+THREADLOCAL REAL iccerrboundA, iccerrboundB, iccerrboundC;
+THREADLOCAL REAL o3derrboundA, o3derrboundB, o3derrboundC;
 
 /* Random number seed is not constant, but I've made it global anyway.       */
 
-unsigned long randomseed;                     /* Current random number seed. */
+THREADLOCAL unsigned long randomseed;         /* Current random number seed. */
 
 
 /* Mesh data structure.  Triangle operates on only one mesh, but the mesh    */
-- 
2.43.0


From ff575c9379b836fe452603617d6e3b38abd11360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 14/45] fix: missing imported stylesheet should be reported as
 error

---
 core/src/mapcss/MapCssParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 759f7a3..396a77f 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -180,6 +180,8 @@ struct ImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator>> {
  private:
   void readImport(const std::string &url) const {
     std::ifstream importFile(directory + url);
+    if (!importFile.good())
+      throw utymap::MapCssException(std::string("Cannot find:") + directory + url);
     std::string content((std::istreambuf_iterator<char>(importFile)), std::istreambuf_iterator<char>());
     // NOTE indirected recursion: caller must ensure that there is no recursive import.
     ::parse(directory, content.begin(), content.end(), stylesheet);
-- 
2.43.0


From 7968902ae2c7d971e141776cb14a216273acee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 15/45] fix: style provider should be usable from several
 threads

---
 core/shared/Application.hpp       |  4 ++++
 core/src/mapcss/StyleProvider.cpp | 11 +++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/shared/Application.hpp b/core/shared/Application.hpp
index 7e36fd6..6ac5c8c 100644
--- a/core/shared/Application.hpp
+++ b/core/shared/Application.hpp
@@ -11,6 +11,8 @@
 #include "heightmap/SrtmElevationProvider.hpp"
 #include "mapcss/MapCssParser.hpp"
 
+#include <mutex>
+
 /// Composes object graph and exposes functionality as API.
 class Application {
  public:
@@ -41,6 +43,7 @@ class Application {
  private:
   /// Gets registered style provider by its style path.
   const utymap::mapcss::StyleProvider &getStyleProvider(const std::string &stylePath) {
+    std::lock_guard<std::mutex> lock(styleLock_);
     auto pair = styleProviders_.find(stylePath);
     if (pair != styleProviders_.end())
       return *pair->second;
@@ -75,6 +78,7 @@ class Application {
   utymap::heightmap::FlatElevationProvider flatEleProvider_;
   utymap::heightmap::SrtmElevationProvider srtmEleProvider_;
   utymap::heightmap::GridElevationProvider gridEleProvider_;
+  std::mutex styleLock_;
   std::unordered_map<std::string, std::unique_ptr<const utymap::mapcss::StyleProvider>> styleProviders_;
 
   Configuration configuration_;
diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 940ea2f..968c969 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -285,14 +285,13 @@ class StyleProvider::StyleProviderImpl {
   }
 
   const ColorGradient &getGradient(const std::string &key) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto gradientPair = gradients.find(key);
     if (gradientPair==gradients.end()) {
       auto gradient = utymap::utils::GradientUtils::parseGradient(key);
       if (gradient->empty())
         throw MapCssException("Invalid gradient: " + key);
-      std::lock_guard<std::mutex> lock(lock_);
-      gradients.emplace(key, std::move(gradient));
-      gradientPair = gradients.find(key);
+      gradientPair = gradients.emplace(key, std::move(gradient)).first;
     }
     return *gradientPair->second;
   }
@@ -418,7 +417,11 @@ Style StyleProvider::forElement(const Element &element, int levelOfDetails) cons
 
 Style StyleProvider::forCanvas(int levelOfDetails) const {
   Style style({}, pimpl_->stringTable);
-  for (const auto &filter : pimpl_->filters.canvases[levelOfDetails]) {
+  auto filters = pimpl_->filters.canvases.find(levelOfDetails);
+  if (filters == pimpl_->filters.canvases.end())
+    return style;
+
+  for (const auto &filter : filters->second) {
     for (const auto &declaration : filter.declarations) {
       style.put(*declaration);
     }
-- 
2.43.0


From 4eb909c7294efb7a3b038fa53464f66ad3a1294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 16/45] fix: mesh cache should not serve incomplete or
 concurrently written data

---
 core/src/builders/CacheBuilder.hpp |   4 +-
 core/src/builders/MeshCache.cpp    | 276 ++++++++++++++++++-----------
 2 files changed, 178 insertions(+), 102 deletions(-)

diff --git a/core/src/builders/CacheBuilder.hpp b/core/src/builders/CacheBuilder.hpp
index 98f0538..6c3de3a 100644
--- a/core/src/builders/CacheBuilder.hpp
+++ b/core/src/builders/CacheBuilder.hpp
@@ -49,10 +49,8 @@ class CacheBuilder final : public ElementBuilder {
 
   void complete() override {
     builder_->complete();
-    if (cacheContext_) {
+    if (cacheContext_)
       meshCache_.unwrap(*cacheContext_);
-      cacheContext_.release();
-    }
   }
 
  private:
diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 1bce9f2..01c9fca 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -2,8 +2,10 @@
 #include "index/ElementStream.hpp"
 #include "index/MeshStream.hpp"
 
+#include <cstdio>
 #include <fstream>
 #include <mutex>
+#include <set>
 
 using namespace utymap;
 using namespace utymap::builders;
@@ -15,74 +17,186 @@ using namespace utymap::utils;
 namespace {
 const char ElementType = 0;
 const char MeshType = 1;
+
+/// Status of cache file.
+const char InProgress = 0;
+const char Completed = 1;
+
+/// Cache file which is not completed yet.
+class CacheFile final {
+ public:
+  CacheFile(const std::string &path) :
+      path_(path),
+      stream_(path, std::ios::out | std::ios::binary | std::ios::trunc) {
+    stream_.put(InProgress);
+  }
+
+  CacheFile(const CacheFile &) = delete;
+  CacheFile &operator=(const CacheFile &) = delete;
+
+  bool good() const { return stream_.good(); }
+
+  void write(const Mesh &mesh) {
+    stream_.put(MeshType);
+    MeshStream::write(stream_, mesh);
+  }
+
+  void write(const Element &element) {
+    stream_.put(ElementType);
+    stream_.write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
+    ElementStream::write(stream_, element);
+  }
+
+  /// Marks file as completed if everything is written.
+  void complete() {
+    stream_.flush();
+    if (!stream_.good()) return;
+
+    stream_.seekp(0, std::ios::beg);
+    stream_.put(Completed);
+    stream_.close();
+    isCompleted_ = stream_.good();
+  }
+
+  ~CacheFile() {
+    // NOTE no guarantee that all data was processed and saved.
+    // So it is better to delete the whole file
+    if (!isCompleted_) {
+      stream_.close();
+      std::remove(path_.c_str());
+    }
+  }
+
+ private:
+  const std::string path_;
+  std::ofstream stream_;
+  bool isCompleted_ = false;
+};
+
+/// Files which are being written at the moment.
+struct CachingFiles final {
+  std::mutex lock;
+  std::set<std::string> paths;
+};
+
+/// Keeps cache file registered till it is completed or there is nobody to write to it.
+class CacheEntry final {
+ public:
+  CacheEntry(const std::string &path, const std::shared_ptr<CachingFiles> &files) :
+      path_(path), files_(files), file_(utymap::utils::make_unique<CacheFile>(path)) {
+    files_->paths.insert(path_);
+  }
+
+  template<typename T>
+  void write(const T &item) {
+    if (file_ && file_->good())
+      file_->write(item);
+  }
+
+  void close(bool isCompleted) {
+    if (!file_) return;
+
+    std::lock_guard<std::mutex> lock(files_->lock);
+    if (isCompleted)
+      file_->complete();
+    file_.reset();
+    files_->paths.erase(path_);
+  }
+
+  bool good() const { return file_ && file_->good(); }
+
+  ~CacheEntry() { close(false); }
+
+ private:
+  const std::string path_;
+  const std::shared_ptr<CachingFiles> files_;
+  std::unique_ptr<CacheFile> file_;
+};
+
+/// Writes item to cache and passes it to original callback.
+template<typename T>
+struct CachingCallback final {
+  std::shared_ptr<CacheEntry> entry;
+  std::function<void(const T &)> callback;
+  const CancellationToken *cancelToken;
+
+  void operator()(const T &item) const {
+    if (cancelToken->isCancelled()) return;
+    entry->write(item);
+    callback(item);
+  }
+};
 }
 
 class MeshCache::MeshCacheImpl {
-  using MeshCallback = BuilderContext::MeshCallback;
-  using ElementCallback = BuilderContext::ElementCallback;
-
  public:
   explicit MeshCacheImpl(const std::string &dataPath, const std::string &extension) :
       dataPath_(dataPath),
-      extension_('.' + extension) {}
+      extension_('.' + extension),
+      cachingFiles_(std::make_shared<CachingFiles>()) {}
 
   BuilderContext wrap(const BuilderContext &context) {
     auto filePath = getFilePath(context);
+    std::shared_ptr<CacheEntry> entry;
+
+    {
+      std::lock_guard<std::mutex> lock(cachingFiles_->lock);
+      // NOTE if the file is being written by another request, then behave as there is no cache at all.
+      if (isCaching(filePath) || isCacheHit(filePath)) return context;
+
+      entry = std::make_shared<CacheEntry>(filePath, cachingFiles_);
+    }
 
-    std::lock_guard<std::mutex> lock(lock_);
-    return isCacheHit(context.quadKey, filePath) ? context : wrap(context, filePath);
+    if (!entry->good()) return context;
+
+    return BuilderContext(
+        context.quadKey,
+        context.styleProvider,
+        context.stringTable,
+        context.meshPool,
+        context.eleProvider,
+        CachingCallback<Mesh>{entry, context.meshCallback, &context.cancelToken},
+        CachingCallback<Element>{entry, context.elementCallback, &context.cancelToken},
+        context.cancelToken);
   }
 
   bool fetch(const BuilderContext &context) {
     auto filePath = getFilePath(context);
 
+    std::ifstream file;
     {
-      std::lock_guard<std::mutex> lock(lock_);
-      if (!isCacheHit(context.quadKey, filePath))
-        return false;
+      std::lock_guard<std::mutex> lock(cachingFiles_->lock);
+      if (isCaching(filePath)) return false;
+
+      // NOTE completed file is never changed.
+      file.open(filePath, std::ios::in | std::ios::binary);
+      if (!isCompleted(file)) return false;
     }
 
-    readCache(filePath, context);
+    readCache(file, filePath, context);
 
     return true;
   }
 
   void unwrap(const BuilderContext &context) {
-    std::lock_guard<std::mutex> lock(lock_);
-
-    auto entry = cachingQuads_.find(context.quadKey);
-
-    if (entry==cachingQuads_.end()) return;
-
-    if (entry->second->good()) {
-      if (context.cancelToken.isCancelled()) {
-        // NOTE no guarantee that all data was processed and saved.
-        // So it is better to delete the whole file
-        entry->second->close();
-        // TODO any smarter option?
-        if (!entry->second->fail())
-          std::remove(getFilePath(context).c_str());
-      } else {
-        entry->second->seekg(0, std::ios::beg);
-        *entry->second << static_cast<char>(1);
-        entry->second->close();
-      }
-    }
+    auto callback = context.meshCallback.target<CachingCallback<Mesh>>();
+    // NOTE context is not wrapped
+    if (callback == nullptr) return;
 
-    cachingQuads_.erase(entry);
+    callback->entry->close(!context.cancelToken.isCancelled());
   }
 
  private:
 
-  /// Checks whether the data associated with given context is already cached on disk.
-  bool isCacheHit(const QuadKey &quadKey, const std::string &filePath) const {
-    // NOTE if quadkey is preset in collection, then caching is in progress.
-    // in this case, we let app to behaviour as there is no cache at all
-    if (cachingQuads_.find(quadKey) != cachingQuads_.end()) return false;
-    // NOTE if file is on disk, it should be processed.
-    std::ifstream file(filePath, std::ios::in | std::ios::binary | std::ios::ate);
-    file.seekg(0, std::ios::beg);
-    return isGood(file);
+  /// Checks whether the file is being written.
+  bool isCaching(const std::string &filePath) const {
+    return cachingFiles_->paths.find(filePath) != cachingFiles_->paths.end();
+  }
+
+  /// Checks whether the data is already cached on disk.
+  static bool isCacheHit(const std::string &filePath) {
+    std::ifstream file(filePath, std::ios::in | std::ios::binary);
+    return isCompleted(file);
   }
 
   /// Gets path to cache file on disk.
@@ -94,78 +208,42 @@ class MeshCache::MeshCacheImpl {
     return ss.str();
   }
 
-  BuilderContext wrap(const BuilderContext &context, const std::string &filePath) {
-    auto file = std::make_shared<std::fstream>();
-    file->open(filePath, std::ios::out | std::ios::binary | std::ios::trunc);
-    // NOTE marker that processing in progress
-    *file << static_cast<char>(0);
-
-    cachingQuads_.insert({context.quadKey, file});
-
-    return BuilderContext(
-        context.quadKey,
-        context.styleProvider,
-        context.stringTable,
-        context.meshPool,
-        context.eleProvider,
-        wrap(*file, context.meshCallback, context.cancelToken),
-        wrap(*file, context.elementCallback, context.cancelToken),
-        context.cancelToken);
-  }
-
-  static MeshCallback wrap(std::ostream &stream, const MeshCallback &callback, const CancellationToken &token) {
-    return [&](const Mesh &mesh) {
-      if (token.isCancelled()) return;
-      stream << MeshType;
-      MeshStream::write(stream, mesh);
-      callback(mesh);
-    };
-  }
-
-  static ElementCallback wrap(std::ostream &stream, const ElementCallback &callback, const CancellationToken &token) {
-    return [&](const Element &element) {
-      if (token.isCancelled()) return;
-      stream << ElementType;
-      stream.write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
-      ElementStream::write(stream, element);
-      callback(element);
-    };
-  }
-
-  static void readCache(std::string &filePath, const BuilderContext &context) {
-    std::fstream file;
-    file.open(filePath, std::ios::in | std::ios::binary | std::ios::app | std::ios::ate);
-    file.seekg(0, std::ios::beg);
-    
-    if (!isGood(file)) return;
-
+  static void readCache(std::istream &file, const std::string &filePath, const BuilderContext &context) {
     while (!context.cancelToken.isCancelled()) {
       char type;
-      if (!(file >> type)) break;
+      if (!file.get(type)) {
+        if (file.bad()) throw std::runtime_error("Cannot read cache: " + filePath);
+        return;
+      }
 
-      if (type==MeshType)
-        context.meshCallback(MeshStream::read(file));
-      else if (type==ElementType) {
-        std::uint64_t id;
+      if (type == MeshType) {
+        auto mesh = MeshStream::read(file);
+        ensureIsRead(file, filePath);
+        context.meshCallback(mesh);
+      } else if (type == ElementType) {
+        std::uint64_t id = 0;
         file.read(reinterpret_cast<char *>(&id), sizeof(id));
-        context.elementCallback(*ElementStream::read(file, id));
+        ensureIsRead(file, filePath);
+        auto element = ElementStream::read(file, id);
+        ensureIsRead(file, filePath);
+        context.elementCallback(*element);
       } else
-        throw std::invalid_argument("Cannot read cache.");
+        throw std::invalid_argument("Cannot read cache: " + filePath);
     }
   }
 
-  static bool isGood(std::istream& stream) {
-    if (!stream.good()) return false;
+  static void ensureIsRead(const std::istream &file, const std::string &filePath) {
+    if (!file.good()) throw std::runtime_error("Cannot read cache: " + filePath);
+  }
 
-    char status;
-    stream >> status;
-    return status == 1;
+  static bool isCompleted(std::istream &stream) {
+    char status = InProgress;
+    return stream.get(status) && status == Completed;
   }
 
   const std::string dataPath_;
   const std::string extension_;
-  std::mutex lock_;
-  std::map<QuadKey, std::shared_ptr<std::fstream>, QuadKey::Comparator> cachingQuads_;
+  const std::shared_ptr<CachingFiles> cachingFiles_;
 };
 
 MeshCache::MeshCache(const std::string &directory, const std::string &extension) :
-- 
2.43.0


From 13d1ebb73b07de49dde1efe563338f2378dd7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 17/45] fix: mesh cache should distinguish elevation, textures,
 lsystems and element types of styles

---
 core/src/builders/MeshCache.cpp              |  2 +-
 core/src/heightmap/ElevationProvider.hpp     |  5 +++++
 core/src/heightmap/GridElevationProvider.hpp |  3 +++
 core/src/heightmap/SrtmElevationProvider.hpp |  2 ++
 core/src/mapcss/MapCssParser.cpp             | 13 +++++++++--
 core/src/mapcss/StyleProvider.cpp            | 23 +++++++++++---------
 core/src/mapcss/StyleSheet.hpp               |  2 ++
 7 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 01c9fca..b921651 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -204,7 +204,7 @@ class MeshCache::MeshCacheImpl {
     std::stringstream ss;
     ss << dataPath_ << "/cache/" << context.styleProvider.getTag()
        << "/" << context.quadKey.levelOfDetail << "/"
-       << GeoUtils::quadKeyToString(context.quadKey) << extension_;
+       << GeoUtils::quadKeyToString(context.quadKey) << context.eleProvider.getTag() << extension_;
     return ss.str();
   }
 
diff --git a/core/src/heightmap/ElevationProvider.hpp b/core/src/heightmap/ElevationProvider.hpp
index 542b73b..74fb734 100644
--- a/core/src/heightmap/ElevationProvider.hpp
+++ b/core/src/heightmap/ElevationProvider.hpp
@@ -4,6 +4,8 @@
 #include "GeoCoordinate.hpp"
 #include "QuadKey.hpp"
 
+#include <string>
+
 namespace utymap {
 namespace heightmap {
 
@@ -16,6 +18,9 @@ class ElevationProvider {
   /// Gets elevation for given geocoordinate.
   virtual double getElevation(const QuadKey &quadkey, double latitude, double longitude) const = 0;
 
+  /// Gets tag which distinguishes data built using different providers.
+  virtual std::string getTag() const { return ""; }
+
   virtual ~ElevationProvider() = default;
 };
 
diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index ee9c6a4..d82edd9 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -39,6 +39,9 @@ class GridElevationProvider final : public ElevationProvider {
       dataPath_(indexPath + "/data/") {
   }
 
+  /// Gets tag which distinguishes data built using different providers.
+  std::string getTag() const override { return ".grid"; }
+
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, const utymap::GeoCoordinate &coordinate) const override {
     return getElevation(quadKey, coordinate.latitude, coordinate.longitude);
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index dfee0ff..d61c5eb 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -49,6 +49,8 @@ class SrtmElevationProvider final : public ElevationProvider {
       dataPath_(indexPath + "/data/"), maxCacheSize_(maxCacheSize) {
   }
 
+  std::string getTag() const override { return ".srtm"; }
+
   double getElevation(const utymap::QuadKey &quadKey, const utymap::GeoCoordinate &coordinate) const override {
     return getElevationImpl(quadKey, coordinate.latitude, coordinate.longitude);
   }
diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 396a77f..7efb85e 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -220,14 +220,23 @@ struct ExtraImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator> > {
  private:
   /// Parses texture atlas from url and adds it to stylesheet.
   void addAtlas(const std::string &fileName) const {
-    stylesheet.textures.push_back(textureAtlasParser.parse(getContent(fileName)));
+    auto content = getContent(fileName);
+    stylesheet.textures.push_back(textureAtlasParser.parse(content));
+    addContent(fileName, content);
   }
 
   /// Parses lsystem from url and adds it to stylesheet.
   void addLSystem(const std::string &fileName) const {
     auto name = utymap::utils::getFileNameWithoutExtension(fileName);
-    auto lsystem = lsystemParser.parse(getContent(fileName));
+    auto content = getContent(fileName);
+    auto lsystem = lsystemParser.parse(content);
     stylesheet.lsystems.emplace(name, lsystem);
+    addContent(fileName, content);
+  }
+
+  /// Keeps raw content to distinguish stylesheets which differ only there.
+  void addContent(const std::string &fileName, const std::string &content) const {
+    stylesheet.extras.append(fileName).append("\n").append(content).append("\n");
   }
 
   /// Gets content of the file.
diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 968c969..d1d32e5 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -50,8 +50,8 @@ struct FilterCollection final {
 /// Alters tag with value specific for passed style declarations.
 void addTo(std::string &tag, const StyleDeclarations &styles) {
   for (const auto &style :styles) {
-    tag.append(utymap::utils::toString(style->key()));
-    tag.append(utymap::utils::toString(style->value()));
+    tag.append(utymap::utils::toString(style->key())).append(":");
+    tag.append(style->value()).append(";");
   }
 }
 
@@ -72,13 +72,14 @@ void addTo(std::string &tag, const OpType &type) {
 
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
+  tag.append("|");
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    tag.append("z").append(utymap::utils::toString(pair.first));
     for (const auto &filter : pair.second) {
       for (const auto &cond : filter.conditions) {
-        tag.append(utymap::utils::toString(cond.key));
+        tag.append("[").append(utymap::utils::toString(cond.key));
         addTo(tag, cond.type);
-        tag.append(utymap::utils::toString(cond.value));
+        tag.append(utymap::utils::toString(cond.value)).append("]");
       }
       addTo(tag, filter.declarations);
     }
@@ -87,17 +88,18 @@ void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
 
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
+  tag.append("|");
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    tag.append("z").append(utymap::utils::toString(pair.first));
     for (const auto &id : pair.second) {
-      tag.append(utymap::utils::toString(id.first));
+      tag.append("#").append(utymap::utils::toString(id.first));
       addTo(tag, id.second);
     }
   }
 }
 
-/// Gets hash for given filter collection.
-std::string getHashTag(const FilterCollection &filterCollection) {
+/// Gets hash for given filter collection and raw content of extra files.
+std::string getHashTag(const FilterCollection &filterCollection, const std::string &extras) {
   std::string tag;
   tag.reserve(64000);
 
@@ -107,6 +109,7 @@ std::string getHashTag(const FilterCollection &filterCollection) {
   addTo(tag, filterCollection.relations);
   addTo(tag, filterCollection.canvases);
   addTo(tag, filterCollection.elements);
+  tag.append("|").append(extras);
 
   return MD5(tag).hexdigest();
 }
@@ -277,7 +280,7 @@ class StyleProvider::StyleProviderImpl {
       lsystems.emplace(lsystem.first, utymap::utils::make_unique<const utymap::lsys::LSystem>(lsystem.second));
     }
 
-    hashTag_ = getHashTag(filters);
+    hashTag_ = getHashTag(filters, stylesheet.extras);
   }
 
   const std::string &getTag() const {
diff --git a/core/src/mapcss/StyleSheet.hpp b/core/src/mapcss/StyleSheet.hpp
index fbb25da..20fcd00 100644
--- a/core/src/mapcss/StyleSheet.hpp
+++ b/core/src/mapcss/StyleSheet.hpp
@@ -128,6 +128,8 @@ struct StyleSheet final {
   std::vector<Rule> rules;
   std::vector<TextureAtlas> textures;
   std::unordered_map<std::string, utymap::lsys::LSystem> lsystems;
+  /// Raw content of files with textures and lsystems.
+  std::string extras;
 };
 
 }
-- 
2.43.0


From 885c4b605da2397c27c98e5e4e5834e15f1f4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 18/45] fix: shape files should be readable from several
 threads

---
 core/lib/shapefile/shpopen.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/core/lib/shapefile/shpopen.c b/core/lib/shapefile/shpopen.c
index ee9fce5..cf281bb 100644
--- a/core/lib/shapefile/shpopen.c
+++ b/core/lib/shapefile/shpopen.c
@@ -300,7 +300,13 @@ typedef unsigned int	      int32;
 #  endif
 #endif
 
-static int 	bBigEndian;
+/* Byte order is not kept in a variable: files may be opened by several threads. */
+static int isBigEndian( void )
+{
+    const int i = 1;
+    return *((const uchar *) &i) != 1;
+}
+#define bBigEndian isBigEndian()
 
 
 /************************************************************************/
@@ -510,15 +516,6 @@ SHPOpenLL( const char * pszLayer, const char * pszAccess, SAHooks *psHooks )
     else
         pszAccess = "rb";
     
-/* -------------------------------------------------------------------- */
-/*	Establish the byte order on this machine.			*/
-/* -------------------------------------------------------------------- */
-    i = 1;
-    if( *((uchar *) &i) == 1 )
-        bBigEndian = FALSE;
-    else
-        bBigEndian = TRUE;
-
 /* -------------------------------------------------------------------- */
 /*	Initialize the info structure.					*/
 /* -------------------------------------------------------------------- */
@@ -865,15 +862,6 @@ SHPCreateLL( const char * pszLayer, int nShapeType, SAHooks *psHooks )
     int32	i32;
     double	dValue;
     
-/* -------------------------------------------------------------------- */
-/*      Establish the byte order on this system.                        */
-/* -------------------------------------------------------------------- */
-    i = 1;
-    if( *((uchar *) &i) == 1 )
-        bBigEndian = FALSE;
-    else
-        bBigEndian = TRUE;
-
 /* -------------------------------------------------------------------- */
 /*	Compute the base (layer) name.  If there is any extension	*/
 /*	on the passed in filename we will strip it off.			*/
-- 
2.43.0


From 7c94f6f0eb4bbffebbf24ff5233d9d2aa774996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 19/45] fix: terrain builder should not modify elements of the
 store

---
 core/src/builders/terrain/TerraBuilder.cpp | 39 +++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index f51bb00..93256c7 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -66,6 +66,32 @@ struct RelationVisitor : public ElementVisitor {
 
   void visitRelation(const utymap::entities::Relation &r) override { r.accept(builder); }
 };
+
+/// Passes copy of element which has tags of its relation: original one belongs to the store
+/// and might be used by another thread.
+struct TagsVisitor : public ElementVisitor {
+  const std::vector<Tag> &tags;
+  const std::function<void(const Element &)> &callback;
+
+  TagsVisitor(const std::vector<Tag> &t, const std::function<void(const Element &)> &c) :
+      tags(t), callback(c) {}
+
+  void visitNode(const utymap::entities::Node &n) override { visit(n); }
+
+  void visitWay(const utymap::entities::Way &w) override { visit(w); }
+
+  void visitArea(const utymap::entities::Area &a) override { visit(a); }
+
+  void visitRelation(const utymap::entities::Relation &r) override { visit(r); }
+
+ private:
+  template<typename T>
+  void visit(const T &element) {
+    T copy(element);
+    copy.tags = tags;
+    callback(copy);
+  }
+};
 }
 
 class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
@@ -129,13 +155,18 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
     auto region = std::make_shared<Region>();
     RelationVisitor visitor(*this, rel, *region);
 
+    std::function<void(const Element &)> visit = [&](const Element &element) {
+      if (context_.styleProvider.hasStyle(element, context_.quadKey.levelOfDetail))
+        element.accept(visitor);
+    };
+    TagsVisitor tagsVisitor(rel.tags, visit);
+
     for (const auto &element : rel.elements) {
       // if there are no tags, then this element is result of clipping
       if (element->tags.empty())
-        element->tags = rel.tags;
-
-      if (context_.styleProvider.hasStyle(*element, context_.quadKey.levelOfDetail))
-        element->accept(visitor);
+        element->accept(tagsVisitor);
+      else
+        visit(*element);
     }
 
     if (!region->geometry.empty()) {
-- 
2.43.0


From ebc38f2a77f5e345429ca87ead1ccab3c33d322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 20/45] fix: degenerate or self-intersecting polygon should not
 hang or crash triangulation

---
 core/lib/triangle/triangle.c      | 58 +++++++++++++++++++++++++++++--
 core/src/builders/MeshBuilder.cpp | 14 ++++++++
 2 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/core/lib/triangle/triangle.c b/core/lib/triangle/triangle.c
index 4535cc9..3959d58 100644
--- a/core/lib/triangle/triangle.c
+++ b/core/lib/triangle/triangle.c
@@ -392,7 +392,7 @@ enum insertvertexresult {SUCCESSFULVERTEX, ENCROACHINGVERTEX, VIOLATINGVERTEX,
 /*   the direction triangle, along the left edge of the direction triangle,  */
 /*   or along the right edge of the direction triangle.                      */
 
-enum finddirectionresult {WITHIN, LEFTCOLLINEAR, RIGHTCOLLINEAR};
+enum finddirectionresult {WITHIN, LEFTCOLLINEAR, RIGHTCOLLINEAR, NODIRECTION};
 
 /*****************************************************************************/
 /*                                                                           */
@@ -11630,7 +11630,7 @@ vertex searchpoint;
 #endif /* not ANSI_DECLARATORS */
 
 {
-  struct otri checktri;
+  struct otri checktri, firsttri;
   vertex startvertex;
   vertex leftvertex, rightvertex;
   REAL leftccw, rightccw;
@@ -11656,6 +11656,7 @@ vertex searchpoint;
       rightflag = 0;
     }
   }
+  otricopy(*searchtri, firsttri);
   while (leftflag) {
     /* Turn left until satisfied. */
     onextself(*searchtri);
@@ -11666,11 +11667,16 @@ vertex searchpoint;
       printf("  (%.12g, %.12g).\n", searchpoint[0], searchpoint[1]);
       internalerror();
     }
+    if (otriequal(*searchtri, firsttri)) {
+      /* There is no such triangle as the mesh is folded near the vertex. */
+      return NODIRECTION;
+    }
     apex(*searchtri, leftvertex);
     rightccw = leftccw;
     leftccw = counterclockwise(m, b, searchpoint, startvertex, leftvertex);
     leftflag = leftccw > 0.0;
   }
+  otricopy(*searchtri, firsttri);
   while (rightflag) {
     /* Turn right until satisfied. */
     oprevself(*searchtri);
@@ -11681,6 +11687,10 @@ vertex searchpoint;
       printf("  (%.12g, %.12g).\n", searchpoint[0], searchpoint[1]);
       internalerror();
     }
+    if (otriequal(*searchtri, firsttri)) {
+      /* There is no such triangle as the mesh is folded near the vertex. */
+      return NODIRECTION;
+    }
     dest(*searchtri, rightvertex);
     leftccw = rightccw;
     rightccw = counterclockwise(m, b, startvertex, searchpoint, rightvertex);
@@ -11815,6 +11825,34 @@ vertex endpoint2;
   /* `splittri' should have destination endpoint1. */
 }
 
+/*****************************************************************************/
+/*                                                                           */
+/*  iscloser()   Check that a vertex on the path of a segment is closer to   */
+/*               its endpoint than the previous one.                         */
+/*                                                                           */
+/*  Coordinates of inserted vertices are rounded, so self-intersecting input */
+/*  might lead the path backwards.                                           */
+/*                                                                           */
+/*****************************************************************************/
+
+#ifdef ANSI_DECLARATORS
+int iscloser(vertex next, vertex previous, vertex endpoint)
+#else /* not ANSI_DECLARATORS */
+int iscloser(next, previous, endpoint)
+vertex next;
+vertex previous;
+vertex endpoint;
+#endif /* not ANSI_DECLARATORS */
+
+{
+  REAL nx = endpoint[0] - next[0];
+  REAL ny = endpoint[1] - next[1];
+  REAL px = endpoint[0] - previous[0];
+  REAL py = endpoint[1] - previous[1];
+
+  return nx * nx + ny * ny < px * px + py * py;
+}
+
 /*****************************************************************************/
 /*                                                                           */
 /*  scoutsegment()   Scout the first triangle on the path from one endpoint  */
@@ -11854,11 +11892,15 @@ int newmark;
 {
   struct otri crosstri;
   struct osub crosssubseg;
-  vertex leftvertex, rightvertex;
+  vertex startvertex, leftvertex, rightvertex;
   enum finddirectionresult collinear;
   subseg sptr;                      /* Temporary variable used by tspivot(). */
 
+  org(*searchtri, startvertex);
   collinear = finddirection(m, b, searchtri, endpoint2);
+  if (collinear == NODIRECTION) {
+    return 1;
+  }
   dest(*searchtri, rightvertex);
   apex(*searchtri, leftvertex);
   if (((leftvertex[0] == endpoint2[0]) && (leftvertex[1] == endpoint2[1])) ||
@@ -11872,6 +11914,9 @@ int newmark;
     return 1;
   } else if (collinear == LEFTCOLLINEAR) {
     /* We've collided with a vertex between the segment's endpoints. */
+    if (!iscloser(leftvertex, startvertex, endpoint2)) {
+      return 1;
+    }
     /* Make the collinear vertex be the triangle's origin. */
     lprevself(*searchtri);
     insertsubseg(m, b, searchtri, newmark);
@@ -11879,6 +11924,9 @@ int newmark;
     return scoutsegment(m, b, searchtri, endpoint2, newmark);
   } else if (collinear == RIGHTCOLLINEAR) {
     /* We've collided with a vertex between the segment's endpoints. */
+    if (!iscloser(rightvertex, startvertex, endpoint2)) {
+      return 1;
+    }
     insertsubseg(m, b, searchtri, newmark);
     /* Make the collinear vertex be the triangle's origin. */
     lnextself(*searchtri);
@@ -11895,6 +11943,10 @@ int newmark;
       segmentintersection(m, b, &crosstri, &crosssubseg, endpoint2);
       otricopy(crosstri, *searchtri);
       insertsubseg(m, b, searchtri, newmark);
+      org(*searchtri, leftvertex);
+      if (!iscloser(leftvertex, startvertex, endpoint2)) {
+        return 1;
+      }
       /* Insert the remainder of the segment. */
       return scoutsegment(m, b, searchtri, endpoint2, newmark);
     }
diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 7a115ca..a222812 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -9,6 +9,7 @@
 #include "utils/GradientUtils.hpp"
 
 #include <mutex>
+#include <set>
 
 using namespace utymap;
 using namespace utymap::builders;
@@ -50,6 +51,15 @@ void ensureMeshCapacity(Mesh &mesh, std::size_t pointCount, std::size_t triCount
   mesh.uvs.reserve(mesh.uvs.size() + pointCount*2);
 }
 
+/// Checks whether there are at least three different points.
+bool hasThreeDistinctPoints(const std::vector<double> &points) {
+  std::set<std::pair<double, double>> distinct;
+  for (std::size_t i = 0; i + 1 < points.size() && distinct.size() < 3; i += 2)
+    distinct.insert(std::make_pair(points[i], points[i + 1]));
+
+  return distinct.size() >= 3;
+}
+
 /// Fills mesh with all data needed to render object correctly outside core library.
 void fillMesh(triangulateio *io, QuadKey quadKey, const BoundingBox &bbox, Mesh &mesh,
               const ElevationProvider &eleProvider,
@@ -117,6 +127,10 @@ void MeshBuilder::addPolygon(Mesh &mesh,
                              Polygon &polygon,
                              const GeometryOptions &geometryOptions,
                              const AppearanceOptions &appearanceOptions) const {
+  // NOTE there is nothing to triangulate and the library cannot deal with it.
+  if (!hasThreeDistinctPoints(polygon.points))
+    return;
+
   triangulateio in, mid;
 
   in.numberofpoints = static_cast<int>(polygon.points.size()/2);
-- 
2.43.0


From f04153ae10135599df2ace05fde75047b5288c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 21/45] fix: unknown roof or facade type should be reported as
 error

---
 core/src/builders/buildings/BuildingBuilder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index f780cd0..6e40ee1 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -295,7 +295,11 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
     double roofHeight = roofMeshContext.style.getValue(RoofHeightKey);
     auto direction = roofMeshContext.style.getString(RoofDirectionKey);
 
-    auto roofBuilder = RoofBuilderFactoryMap.find(roofType)->second(context_, roofMeshContext);
+    auto roofFactory = RoofBuilderFactoryMap.find(roofType);
+    if (roofFactory==RoofBuilderFactoryMap.end())
+      throw std::domain_error("Unknown roof type:" + roofType);
+
+    auto roofBuilder = roofFactory->second(context_, roofMeshContext);
     roofBuilder->setHeight(roofHeight);
     roofBuilder->setMinHeight(elevation + height);
     roofBuilder->setColorNoiseFreq(0);
@@ -335,7 +339,11 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
                                                         id_);
 
     auto facadeType = facadeMeshContext.style.getString(FacadeTypeKey);
-    auto facadeBuilder = FacadeBuilderFactoryMap.find(facadeType)->second(context_, facadeMeshContext);
+    auto facadeFactory = FacadeBuilderFactoryMap.find(facadeType);
+    if (facadeFactory==FacadeBuilderFactoryMap.end())
+      throw std::domain_error("Unknown facade type:" + facadeType);
+
+    auto facadeBuilder = facadeFactory->second(context_, facadeMeshContext);
 
     facadeBuilder->setHeight(height);
     facadeBuilder->setMinHeight(elevation);
-- 
2.43.0


From 22258e896894af0e3bbcff6ad20837b4983c4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 22/45] fix: corrupt shape should be reported as error

---
 core/lib/shapefile/shpopen.c           | 8 ++++++++
 core/src/formats/shape/ShapeParser.hpp | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/core/lib/shapefile/shpopen.c b/core/lib/shapefile/shpopen.c
index cf281bb..0e4560c 100644
--- a/core/lib/shapefile/shpopen.c
+++ b/core/lib/shapefile/shpopen.c
@@ -1577,6 +1577,14 @@ SHPReadObject( SHPHandle psSHP, int hEntity )
 /*      Ensure our record buffer is large enough.                       */
 /* -------------------------------------------------------------------- */
     nEntitySize = psSHP->panRecSize[hEntity]+8;
+    if( nEntitySize < 0 )
+    {
+        snprintf(szErrorMsg, sizeof(szErrorMsg),
+                 "Corrupted .shp file : shape %d : nEntitySize = %d",
+                 hEntity, nEntitySize); 
+        psSHP->sHooks.Error( szErrorMsg );
+        return NULL;
+    }
     if( nEntitySize > psSHP->nBufSize )
     {
         psSHP->pabyRec = (uchar *) SfRealloc(psSHP->pabyRec,nEntitySize);
diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 50ef11d..87605ed 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -151,6 +151,9 @@ class ShapeParser final {
         members[coordIndex].coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
         ++partNum;
       }
+      if (members.empty())
+        throw std::domain_error("Polygon has vertices outside of its parts.");
+
       members[coordIndex].coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
     }
     visitor.visitRelation(members, tags);
-- 
2.43.0


From 7130f6055f77b6ae53122721b8ad8e22a9ffad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 23/45] fix: clipper should not dispose intersection twice if
 memory is over

---
 core/lib/clipper/clipper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/clipper/clipper.cpp b/core/lib/clipper/clipper.cpp
index 02f14b3..d81d52a 100644
--- a/core/lib/clipper/clipper.cpp
+++ b/core/lib/clipper/clipper.cpp
@@ -2806,6 +2806,7 @@ void Clipper::ProcessIntersectList()
       SwapPositionsInAEL( iNode->Edge1 , iNode->Edge2 );
     }
     delete iNode;
+    m_IntersectList[i] = 0; //the list is disposed if the next one throws
   }
   m_IntersectList.clear();
 }
-- 
2.43.0


From d497569f747affd6738aeefad9afe90a9dbfb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 24/45] fix: clipper should keep a way which crosses a tile
 without a vertex in it

---
 core/src/index/ElementGeometryClipper.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 1668028..538dad7 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -19,26 +19,14 @@ const double Scale = 1E7;
 
 using PointLocation = utymap::index::ElementGeometryClipper::PointLocation;
 
-template<typename T, typename std::enable_if<std::is_same<T, Way>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &, const BoundingBox &, bool allOutside) {
-  return !allOutside;
-}
-
-template<typename T, typename std::enable_if<std::is_same<T, Area>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &quadKeyBbox, const BoundingBox &elementBbox, bool allOutside) {
-  return quadKeyBbox.intersects(elementBbox);
-}
-
 template<typename T>
 PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, IntPath &elementShape) {
   elementShape.reserve(element.coordinates.size());
   bool allInside = true;
-  bool allOutside = true;
   BoundingBox elementBbox;
   for (const GeoCoordinate &coord : element.coordinates) {
     bool contains = quadKeyBbox.contains(coord);
     allInside &= contains;
-    allOutside &= !contains;
     elementBbox.expand(coord);
 
     auto x = static_cast<cInt>(coord.longitude*Scale);
@@ -47,7 +35,7 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
   }
 
   return allInside ? PointLocation::AllInside :
-         (areConnected<T>(quadKeyBbox, elementBbox, allOutside) ? PointLocation::Mixed : PointLocation::AllOutside);
+         (quadKeyBbox.intersects(elementBbox) ? PointLocation::Mixed : PointLocation::AllOutside);
 }
 
 template<typename T>
-- 
2.43.0


From 6e5438709511e2cb79eec9c3f879117dea466e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 25/45] fix: xml parser should accept way and relation without
 members

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index ff50440..cfe95e3 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -170,7 +170,7 @@ struct WayGrammar : qi::grammar < Iterator, WayType(), AttributeSkipper<Iterator
     nodeRef = qi::skip(qi::space)["<nd" > ref > "/>"];
 
     way =
-        "<way" > id > '>' > +nodeRef > *tag > "</way>";
+        "<way" > id > '>' > *nodeRef > *tag > "</way>";
 
     BOOST_SPIRIT_DEBUG_NODE(nodeRef);
     BOOST_SPIRIT_DEBUG_NODE(way);
@@ -189,7 +189,7 @@ struct RelationGrammar : qi::grammar < Iterator, RelationType(), AttributeSkippe
     memberRef = qi::skip(qi::space)["<member" > ("type=" > value) > ref > ("role=" > value) > "/>"];
 
     relation =
-        "<relation" > id > '>' > +memberRef > *tag > "</relation>";
+        "<relation" > id > '>' > *memberRef > *tag > "</relation>";
 
     BOOST_SPIRIT_DEBUG_NODE(memberRef);
     BOOST_SPIRIT_DEBUG_NODE(relation);
-- 
2.43.0


From 3bf6bcd4b851786dd042823a8fe85eb04aac9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 26/45] fix: clipping should not corrupt a way which starts or
 ends with horizontal segment

---
 core/src/index/ElementGeometryClipper.cpp | 121 +++++++++++++++++-----
 1 file changed, 97 insertions(+), 24 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 538dad7..27b4025 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -8,6 +8,9 @@
 #include "index/ElementStore.hpp"
 #include "index/ElementGeometryClipper.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 using namespace utymap;
 using namespace utymap::entities;
 using namespace utymap::mapcss;
@@ -64,11 +67,82 @@ IntPath createPathFromBoundingBox(const BoundingBox &quadKeyBbox) {
   return std::move(rect);
 }
 
-template<typename T>
-std::shared_ptr<Element> clipElement(Clipper &clipper,
-                                     const BoundingBox &bbox,
-                                     const T &element,
-                                     bool isClosed) {
+/// Gets part of segment inside rectangle. Returns false if there is no such part.
+bool clipSegment(const IntRect &rect, IntPoint &start, IntPoint &end) {
+  const double dx = static_cast<double>(end.X - start.X);
+  const double dy = static_cast<double>(end.Y - start.Y);
+  const double deltas[] = {-dx, dx, -dy, dy};
+  const double distances[] = {static_cast<double>(start.X - rect.left), static_cast<double>(rect.right - start.X),
+                              static_cast<double>(start.Y - rect.bottom), static_cast<double>(rect.top - start.Y)};
+  double from = 0, to = 1;
+  for (int i = 0; i < 4; ++i) {
+    if (deltas[i]==0) {
+      if (distances[i] < 0) return false;
+    } else if (deltas[i] < 0) {
+      from = std::max(from, distances[i]/deltas[i]);
+    } else {
+      to = std::min(to, distances[i]/deltas[i]);
+    }
+  }
+
+  if (from > to) return false;
+
+  const IntPoint origin = start;
+  if (from > 0)
+    start = IntPoint(origin.X + std::llround(dx*from), origin.Y + std::llround(dy*from));
+  if (to < 1)
+    end = IntPoint(origin.X + std::llround(dx*to), origin.Y + std::llround(dy*to));
+
+  return true;
+}
+
+/// Clips line. NOTE Clipper library is not used as it returns wrong result for
+/// open path which starts or ends with horizontal segment.
+IntPaths clipLine(const IntRect &rect, const IntPath &line) {
+  IntPaths solution;
+  IntPath path;
+  auto complete = [&]() {
+    if (path.size() > 1) solution.push_back(path);
+    path.clear();
+  };
+
+  // NOTE points are returned starting from the last one.
+  for (std::size_t i = line.size() - 1; i > 0; --i) {
+    IntPoint start = line[i], end = line[i - 1];
+    if (!clipSegment(rect, start, end)) {
+      complete();
+      continue;
+    }
+
+    if (path.empty() || path.back()!=start) {
+      complete();
+      path.push_back(start);
+    }
+
+    if (start!=end) path.push_back(end);
+  }
+  complete();
+
+  return solution;
+}
+
+/// Clips polygon.
+IntPaths clipPolygon(Clipper &clipper, const IntPath &polygon) {
+  PolyTree tree;
+  addSubject(clipper, polygon, true);
+  executeIntersection(clipper, tree);
+  clipper.removeSubject();
+
+  IntPaths solution;
+  solution.reserve(static_cast<std::size_t>(tree.Total()));
+  for (PolyNode *node = tree.GetFirst(); node; node = node->GetNext()) {
+    solution.push_back(node->Contour);
+  }
+  return solution;
+}
+
+template<typename T, typename Clip>
+std::shared_ptr<Element> clipElement(const BoundingBox &bbox, const T &element, Clip clip) {
   IntPath elementShape;
   PointLocation pointLocation = checkElement(bbox, element, elementShape);
   // 1. all geometry inside current quadkey: no need to truncate.
@@ -81,35 +155,28 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
     return nullptr;
   }
 
-  PolyTree solution;
-  addSubject(clipper, elementShape, isClosed);
-  executeIntersection(clipper, solution);
-  clipper.removeSubject();
-
-  std::size_t count = static_cast<std::size_t>(solution.Total());
+  IntPaths solution = clip(elementShape);
 
   // 3. way intersects border only once: store a copy with clipped geometry
-  if (count==1) {
+  if (solution.size()==1) {
     auto clippedElement = std::make_shared<T>();
     clippedElement->id = element.id;
     clippedElement->tags = element.tags;
-    setCoordinates(*clippedElement, solution.GetFirst()->Contour);
+    setCoordinates(*clippedElement, solution[0]);
     
     return clippedElement;
   }
   // 4. in this case, result should be stored as relation (collection of ways)
-  if (count > 1) {
+  if (solution.size() > 1) {
     auto relation = std::make_shared<Relation>();
     relation->id = element.id;
-    relation->elements.reserve(count);
-    PolyNode *polyNode = solution.GetFirst();
-    while (polyNode) {
+    relation->elements.reserve(solution.size());
+    for (const auto &path : solution) {
       auto clippedElement = std::make_shared<T>();
       clippedElement->id = 0;
       clippedElement->tags = element.tags;
-      setCoordinates(*clippedElement, polyNode->Contour);
+      setCoordinates(*clippedElement, path);
       relation->elements.push_back(clippedElement);
-      polyNode = polyNode->GetNext();
     }
     return relation;
   }
@@ -118,12 +185,18 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
   return nullptr;
 }
 
-std::shared_ptr<Element> clipWay(Clipper &clipper, const BoundingBox &bbox, const Way &way) {
-  return clipElement(clipper, bbox, way, false);
+std::shared_ptr<Element> clipWay(const BoundingBox &bbox, const Way &way) {
+  auto rectPath = createPathFromBoundingBox(bbox);
+  IntRect rect;
+  rect.left = rectPath[0].X;
+  rect.bottom = rectPath[0].Y;
+  rect.right = rectPath[2].X;
+  rect.top = rectPath[2].Y;
+  return clipElement(bbox, way, [&](const IntPath &line) { return clipLine(rect, line); });
 }
 
 std::shared_ptr<Element> clipArea(Clipper &clipper, const BoundingBox &bbox, const Area &area) {
-  return clipElement(clipper, bbox, area, true);
+  return clipElement(bbox, area, [&](const IntPath &polygon) { return clipPolygon(clipper, polygon); });
 }
 
 std::shared_ptr<Element> clipRelation(Clipper &clipper,
@@ -144,7 +217,7 @@ struct RelationVisitor : public ElementVisitor {
   }
 
   void visitWay(const Way &way) override {
-    addElement(clipWay(clipper_, bbox_, way));
+    addElement(clipWay(bbox_, way));
   }
 
   void visitArea(const Area &area) override {
@@ -219,7 +292,7 @@ void ElementGeometryClipper::visitNode(const Node &node) {
 }
 
 void ElementGeometryClipper::visitWay(const Way &way) {
-  auto element = clipWay(clipper_, quadKeyBbox_, way);
+  auto element = clipWay(quadKeyBbox_, way);
   if (element!=nullptr)
     callback_(*element, quadKey_);
 }
-- 
2.43.0


From 55e6ef43aa59c47fb5576a520f23e0ea92c1f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 27/45] fix: terrain layer evaluated to empty name should not
 crash

---
 core/src/builders/terrain/TerraBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index 93256c7..2c86821 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -229,6 +229,10 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
                  const utymap::entities::Element &element,
                  const Style &style,
                  std::shared_ptr<Region> &region) {
+    // NOTE name of layer may be evaluated to empty string: such region has to be built on its own.
+    if (type.empty() && region->isLayer())
+      region->context = std::make_shared<RegionContext>(RegionContext::create(context_, style, ""));
+
     layers_[type].regions.push_back(region);
     for (const auto &generator : generators_) {
       generator->onNewRegion(type, element, style, region);
-- 
2.43.0


From f83011463a830d4706f4ec3b849bd34d6b846d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 28/45] fix: report tile as loaded also when its data had to be
 imported first

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 2b1fad6..c4030fb 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -63,16 +63,22 @@ namespace UtyMap.Unity.Data
                 {
                     // We have map data in store.
                     if (String.IsNullOrEmpty(value.Item2))
-                        _mapDataLibrary
-                            .Get(value.Item1, _dataObservers)
-                            .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(value.Item1)));
+                        LoadTile(value.Item1);
                     else
                         // NOTE store data in the first registered store
                         AddTo(_storageKeys.First(), value.Item2, value.Item1.Stylesheet, value.Item1.QuadKey, value.Item1.CancelationToken)
-                            .Subscribe(progress => { }, () => _mapDataLibrary.Get(value.Item1, _dataObservers));
+                            .Subscribe(progress => { }, () => LoadTile(value.Item1));
                 });
         }
 
+        /// <summary> Loads tile from library and notifies observers. </summary>
+        private void LoadTile(Tile tile)
+        {
+            _mapDataLibrary
+                .Get(tile, _dataObservers)
+                .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(tile)));
+        }
+
         #region Interface implementations
 
         /// <inheritdoc />
-- 
2.43.0


From 98baf2ae3b1ab85c4fc3a840c376c3756d1fc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 29/45] fix: store srtm data under the name which is read by
 native code

---
 .../Data/Providers/Elevation/SrtmElevationDataProvider.cs      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index 4519684..8bf342d 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -79,7 +79,8 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         protected override string GetFilePath(QuadKey quadKey)
         {
             var prefix = GetFileNamePrefix(GeoUtils.QuadKeyToBoundingBox(quadKey).Center());
-            return Path.Combine(_elePath, prefix);
+            // NOTE native code looks for this extension
+            return Path.Combine(_elePath, prefix + ".hgt");
         }
 
         /// <inheritdoc />
-- 
2.43.0


From 3b58a2e711dc81c8a3589dd32d83f3bb3ac8e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 30/45] fix: failed download should not end the process

---
 .../UtyMap.Unity/Data/MapDataProvider.cs      | 52 +++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index f2be3bf..8e98cb7 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -120,22 +120,44 @@ namespace UtyMap.Unity.Data
 
         private void MakeTileRequest(Tile value)
         {
-            var uri = GetUri(value.QuadKey);
-            _trace.Info(TraceCategory, Strings.NoPresistentElementSourceFound, value.ToString(), uri);
-            _networkService.GetAndGetBytes(uri)
-                .ObserveOn(Scheduler.ThreadPool)
-                .Subscribe(bytes =>
+            // NOTE runs on threads of pool where nobody handles exceptions
+            try
+            {
+                var uri = GetUri(value.QuadKey);
+                _trace.Info(TraceCategory, Strings.NoPresistentElementSourceFound, value.ToString(), uri);
+                _networkService.GetAndGetBytes(uri)
+                    .ObserveOn(Scheduler.ThreadPool)
+                    .Subscribe(bytes => ProcessResponse(value, bytes), ex => TraceError(value, ex));
+            }
+            catch (Exception ex)
+            {
+                TraceError(value, ex);
+            }
+        }
+
+        private void ProcessResponse(Tile value, byte[] bytes)
+        {
+            try
+            {
+                _trace.Debug(TraceCategory, "saving bytes: {0}", bytes.Length.ToString());
+                var filePath = GetFilePath(value.QuadKey);
+                lock (_lockObj)
                 {
-                    _trace.Debug(TraceCategory, "saving bytes: {0}", bytes.Length.ToString());
-                    var filePath = GetFilePath(value.QuadKey);
-                    lock (_lockObj)
-                    {
-                        if (!_fileSystemService.Exists(filePath))
-                            using (var stream = _fileSystemService.WriteStream(filePath))
-                                WriteBytes(stream, bytes);
-                    }
-                    Notify(new Tuple<Tile, string>(value, filePath));
-                });
+                    if (!_fileSystemService.Exists(filePath))
+                        using (var stream = _fileSystemService.WriteStream(filePath))
+                            WriteBytes(stream, bytes);
+                }
+                Notify(new Tuple<Tile, string>(value, filePath));
+            }
+            catch (Exception ex)
+            {
+                TraceError(value, ex);
+            }
+        }
+
+        private void TraceError(Tile value, Exception ex)
+        {
+            _trace.Error(TraceCategory, ex, "cannot get data of {0}", value.ToString());
         }
     }
 }
-- 
2.43.0


From 46ca36ea4c51463be24b0e0786eb6eb6773791d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 31/45] fix: invalid response should not leave data file

---
 unity/library/UtyMap.Unity/Data/MapDataProvider.cs        | 8 +++++++-
 .../UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs     | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index 8e98cb7..9b0ddb7 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -144,8 +144,14 @@ namespace UtyMap.Unity.Data
                 lock (_lockObj)
                 {
                     if (!_fileSystemService.Exists(filePath))
+                    {
+                        // NOTE file should not be created if response is not valid
+                        var content = new MemoryStream();
+                        WriteBytes(content, bytes);
+                        var data = content.ToArray();
                         using (var stream = _fileSystemService.WriteStream(filePath))
-                            WriteBytes(stream, bytes);
+                            stream.Write(data, 0, data.Length);
+                    }
                 }
                 Notify(new Tuple<Tile, string>(value, filePath));
             }
diff --git a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
index 7e98c7f..7e28549 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
@@ -381,6 +381,10 @@ namespace UtyMap.Unity.Infrastructure.Formats
             {
                 throw new Exception("JSON Parse: Quotation marks seems to be messed up.");
             }
+            if (stack.Count != 0)
+            {
+                throw new Exception("JSON Parse: Not enough closing brackets");
+            }
             return ctx;
         }
  
-- 
2.43.0


From e3e82f15aec4e1de94a257e782f2c8b09e480f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 32/45] fix: interrupted write should not leave incomplete data
 file

---
 .../Infrastructure/IO/FileSystemService.cs    | 54 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/IO/FileSystemService.cs b/unity/library/UtyMap.Unity/Infrastructure/IO/FileSystemService.cs
index 792a1e5..d9f3461 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/IO/FileSystemService.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/IO/FileSystemService.cs
@@ -35,7 +35,7 @@ namespace UtyMap.Unity.Infrastructure.IO
         {
             var resolvedPath = PathResolver.Resolve(path);
             Trace.Debug(LogTag, "write stream from {0}", resolvedPath);
-            return new FileStream(resolvedPath, FileMode.Create);
+            return new TransactionalFileStream(resolvedPath);
         }
 
         /// <inheritdoc />
@@ -85,5 +85,57 @@ namespace UtyMap.Unity.Infrastructure.IO
             Trace.Debug(LogTag, "create directory: {0}", resolvedPath);
             Directory.CreateDirectory(resolvedPath);
         }
+
+        /// <summary> Writes to temporary file which gets its final name once everything is written. </summary>
+        private class TransactionalFileStream : FileStream
+        {
+            private readonly string _path;
+            private readonly string _tempPath;
+            private bool _isFailed;
+            private bool _isDisposed;
+
+            public TransactionalFileStream(string path)
+                : this(path, path + ".tmp")
+            {
+            }
+
+            private TransactionalFileStream(string path, string tempPath)
+                : base(tempPath, FileMode.Create)
+            {
+                _path = path;
+                _tempPath = tempPath;
+            }
+
+            /// <inheritdoc />
+            public override void Write(byte[] array, int offset, int count)
+            {
+                try
+                {
+                    base.Write(array, offset, count);
+                }
+                catch
+                {
+                    _isFailed = true;
+                    throw;
+                }
+            }
+
+            /// <inheritdoc />
+            protected override void Dispose(bool disposing)
+            {
+                base.Dispose(disposing);
+
+                if (!disposing || _isDisposed)
+                    return;
+
+                _isDisposed = true;
+                if (_isFailed)
+                    return;
+
+                if (File.Exists(_path))
+                    File.Delete(_path);
+                File.Move(_tempPath, _path);
+            }
+        }
     }
 }
-- 
2.43.0


From 51c3360adc8dd67e6b0529ff3aa7a301aec1756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 33/45] fix: response which arrives at once should not be lost

---
 .../Infrastructure/IO/NetworkService.cs       | 57 +++++++++++--------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/IO/NetworkService.cs b/unity/library/UtyMap.Unity/Infrastructure/IO/NetworkService.cs
index 87ca4cc..a2842c0 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/IO/NetworkService.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/IO/NetworkService.cs
@@ -11,36 +11,47 @@ namespace UtyMap.Unity.Infrastructure.IO
         /// <inheritdoc />
         public IObservable<string> Get(string url, Dictionary<string, string> headers = null)
         {
-            var webClient = new WebClient();
-            var query = Observable
-                .FromEventPattern<DownloadStringCompletedEventHandler, DownloadStringCompletedEventArgs>
-                (
-                    eh => new DownloadStringCompletedEventHandler(eh),
-                    eh => webClient.DownloadStringCompleted += eh,
-                    eh => webClient.DownloadStringCompleted -= eh
-                ).Select(o => o.EventArgs.Result);
-            
-            AddHeaders(webClient, headers);
+            // NOTE start download once there is somebody to receive the response
+            return Observable.Create<string>(observer =>
+            {
+                var webClient = new WebClient();
+                AddHeaders(webClient, headers);
+
+                var subscription = Observable
+                    .FromEventPattern<DownloadStringCompletedEventHandler, DownloadStringCompletedEventArgs>
+                    (
+                        eh => new DownloadStringCompletedEventHandler(eh),
+                        eh => webClient.DownloadStringCompleted += eh,
+                        eh => webClient.DownloadStringCompleted -= eh
+                    ).Select(o => o.EventArgs.Result)
+                    .Subscribe(observer);
 
-            webClient.DownloadStringAsync(new Uri(url));
-            return query;
+                webClient.DownloadStringAsync(new Uri(url));
+                return subscription;
+            });
         }
 
         /// <inheritdoc />
         public IObservable<byte[]> GetAndGetBytes(string url, Dictionary<string, string> headers = null)
         {
-            var webClient = new WebClient();
-            var query = Observable.FromEventPattern<DownloadDataCompletedEventHandler, DownloadDataCompletedEventArgs>
-                (
-                    eh => new DownloadDataCompletedEventHandler(eh),
-                    eh => webClient.DownloadDataCompleted += eh,
-                    eh => webClient.DownloadDataCompleted -= eh
-                ).Select(o => o.EventArgs.Result);
-            
-            AddHeaders(webClient, headers);
+            // NOTE start download once there is somebody to receive the response
+            return Observable.Create<byte[]>(observer =>
+            {
+                var webClient = new WebClient();
+                AddHeaders(webClient, headers);
+
+                var subscription = Observable
+                    .FromEventPattern<DownloadDataCompletedEventHandler, DownloadDataCompletedEventArgs>
+                    (
+                        eh => new DownloadDataCompletedEventHandler(eh),
+                        eh => webClient.DownloadDataCompleted += eh,
+                        eh => webClient.DownloadDataCompleted -= eh
+                    ).Select(o => o.EventArgs.Result)
+                    .Subscribe(observer);
 
-            webClient.DownloadDataAsync(new Uri(url));
-            return query;
+                webClient.DownloadDataAsync(new Uri(url));
+                return subscription;
+            });
         }
 
         private static void AddHeaders(WebClient webClient, Dictionary<string, string> headers)
-- 
2.43.0


From 4a0d8e7abda58d4911e0c83a0a66ad2f4a379b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 34/45] fix: failed geocoding request should not end the
 process

---
 .../UtyMap.Unity/Geocoding/NominatimGeocoder.cs  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 6698658..06293e0 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -5,6 +5,7 @@ using System.Linq;
 using System.Text;
 using UtyDepend;
 using UtyDepend.Config;
+using UtyMap.Unity.Infrastructure.Diagnostic;
 using UtyMap.Unity.Infrastructure.Formats;
 using UtyMap.Unity.Infrastructure.IO;
 using UtyRx;
@@ -23,7 +24,10 @@ namespace UtyMap.Unity.Geocoding
             { "User-Agent", "UtyMap" }
         };
 
+        private const string TraceCategory = "geocoding";
+
         private readonly INetworkService _networkService;
+        private readonly ITrace _trace;
 
         private string _searchPath;
         private string _reverseSearchPath;
@@ -31,9 +35,10 @@ namespace UtyMap.Unity.Geocoding
         private List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
 
         [Dependency]
-        public NominatimGeocoder(INetworkService networkService)
+        public NominatimGeocoder(INetworkService networkService, ITrace trace)
         {
             _networkService = networkService;
+            _trace = trace;
         }
 
         /// <inheritdoc />
@@ -91,7 +96,7 @@ namespace UtyMap.Unity.Geocoding
                 .SelectMany(r => (
                     from JSONNode json in JSON.Parse(r).AsArray
                     select ParseGeocoderResult(json)))
-                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)));
+                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)), TraceError);
         }
 
         /// <inheritdoc />
@@ -105,7 +110,12 @@ namespace UtyMap.Unity.Geocoding
                 .Get(url, _headers)
                 .Take(1)
                 .Select(r => ParseGeocoderResult(JSON.Parse(r)))
-                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)));
+                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)), TraceError);
+        }
+
+        private void TraceError(Exception ex)
+        {
+            _trace.Error(TraceCategory, ex, "Cannot get response from server.");
         }
 
         private GeocoderResult ParseGeocoderResult(JSONNode resultNode)
-- 
2.43.0


From cc2616374d2ad4d7c3dfa7fa40d3ee91030a0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 35/45] fix: geocoding should not depend on culture

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 06293e0..84e0a0b 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -103,7 +103,7 @@ namespace UtyMap.Unity.Geocoding
         public void OnNext(Tuple<GeoCoordinate, float> value)
         {
             var coordinate = value.Item1;
-            var url = String.Format("{0}format=json&lat={1}&lon={2}",
+            var url = String.Format(CultureInfo.InvariantCulture, "{0}format=json&lat={1}&lon={2}",
                 _reverseSearchPath, coordinate.Latitude, coordinate.Longitude);
 
             _networkService
@@ -142,7 +142,8 @@ namespace UtyMap.Unity.Geocoding
         private static GeoCoordinate ParseGeoCoordinate(string latStr, string lonStr)
         {
             double latitude, longitude;
-            if (double.TryParse(latStr, out latitude) && double.TryParse(lonStr, out longitude))
+            if (double.TryParse(latStr, NumberStyles.Float, CultureInfo.InvariantCulture, out latitude) &&
+                double.TryParse(lonStr, NumberStyles.Float, CultureInfo.InvariantCulture, out longitude))
                 return new GeoCoordinate(latitude, longitude);
             return default(GeoCoordinate);
         }
-- 
2.43.0


From 0f41e811ef003c58da9b529f9cee7dade7bd24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 36/45] fix: request made right after start should not be lost

---
 unity/library/UtyMap.Unity/Data/MapDataProvider.cs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index 9b0ddb7..84a6b8b 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -70,8 +70,7 @@ namespace UtyMap.Unity.Data
             var queue = new Queue<Tile>();
             _requestBuffer = new Subject<Tile>();
             _requestBuffer
-                .Buffer(_limitThreshold)
-                .SubscribeOn(Scheduler.ThreadPool)
+                .Buffer(_limitThreshold, Scheduler.ThreadPool)
                 .Subscribe(tiles => MakeTileRequest(queue, tiles));
         }
 
-- 
2.43.0


From 945b133f04a6718f0a4568d2a770eb469f3623c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 37/45] fix: stylesheet should be registered once and before it
 is used

---
 .../library/UtyMap.Unity/Data/MapDataLibrary.cs  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 52d0ace..e98bc13 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -105,7 +105,7 @@ namespace UtyMap.Unity.Data
         private readonly ITrace _trace;
         private volatile bool _isConfigured;
 
-        private HashSet<string> _stylePaths = new HashSet<string>();
+        private readonly HashSet<string> _stylePaths = new HashSet<string>();
 
         [Dependency]
         public MapDataLibrary(IPathResolver pathResolver, ITrace trace)
@@ -306,11 +306,15 @@ namespace UtyMap.Unity.Data
         {
             var stylePath = _pathResolver.Resolve(stylesheet.Path);
 
-            if (_stylePaths.Contains(stylePath))
-                return stylePath;
-
-            _stylePaths.Add(stylePath);
-            registerStylesheet(stylePath, CreateDirectory);
+            // NOTE called from different threads: stylesheet should be registered before it is used
+            lock (_stylePaths)
+            {
+                if (!_stylePaths.Contains(stylePath))
+                {
+                    registerStylesheet(stylePath, CreateDirectory);
+                    _stylePaths.Add(stylePath);
+                }
+            }
 
             return stylePath;
         }
-- 
2.43.0


From 84bf8f7129cf5a11bd835a74c7ddd313e9d36e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 38/45] fix: failed stylesheet registration should not end the
 process

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index e98bc13..509ebbe 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -184,12 +184,11 @@ namespace UtyMap.Unity.Data
         public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, Range<int> levelOfDetails, CancellationToken cancellationToken)
         {
             var dataPath = _pathResolver.Resolve(path);
-            var stylePath = RegisterStylesheet(stylesheet);
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInRange(
-                    storageKey, stylePath, dataPath, levelOfDetails.Minimum,
+                    storageKey, RegisterStylesheet(stylesheet), dataPath, levelOfDetails.Minimum,
                     levelOfDetails.Maximum, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
@@ -199,12 +198,11 @@ namespace UtyMap.Unity.Data
         public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, QuadKey quadKey, CancellationToken cancellationToken)
         {
             var dataPath = _pathResolver.Resolve(path);
-            var stylePath = RegisterStylesheet(stylesheet);
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInQuadKey(
-                    storageKey, stylePath, dataPath, quadKey.TileX, quadKey.TileY,
+                    storageKey, RegisterStylesheet(stylesheet), dataPath, quadKey.TileX, quadKey.TileY,
                     quadKey.LevelOfDetail, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
@@ -229,12 +227,10 @@ namespace UtyMap.Unity.Data
                 tags[i * 2 + 1] = element.Tags[tagKeys[i]];
             }
 
-            var stylePath = RegisterStylesheet(stylesheet);
-
             lock (__lockObj)
             {
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInElement(
-                    storageKey, stylePath, element.Id, coordinates, coordinates.Length, tags, tags.Length,
+                    storageKey, RegisterStylesheet(stylesheet), element.Id, coordinates, coordinates.Length, tags, tags.Length,
                     levelOfDetails.Minimum, levelOfDetails.Maximum, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
@@ -257,10 +253,9 @@ namespace UtyMap.Unity.Data
         private IObservable<int> Get(Tile tile, int tag, OnMeshBuilt meshBuiltHandler, OnElementLoaded elementLoadedHandler, OnError errorHandler)
         {
             _trace.Debug(TraceCategory, "Get tile {0}", tile.ToString());
-            var stylePath = RegisterStylesheet(tile.Stylesheet);
             var quadKey = tile.QuadKey;
             WithCancelToken(tile.CancelationToken, (cancelTokenHandle) => getDataByQuadKey(
-                tag, stylePath, quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail,
+                tag, RegisterStylesheet(tile.Stylesheet), quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail,
                 (int)tile.ElevationType, meshBuiltHandler, elementLoadedHandler, errorHandler,
                 cancelTokenHandle.AddrOfPinnedObject())
             );
-- 
2.43.0


From 72a4f2c4c9576f374893d40dfe7575674b9d763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 39/45] fix: subscription should be possible while others are
 notified

---
 .../library/UtyMap.Unity/Data/MapDataStore.cs  | 18 ++++++++++++------
 .../Geocoding/NominatimGeocoder.cs             | 16 +++++++++++-----
 .../UtyMap.Unity/Geocoding/UtyMapGeocoder.cs   | 16 +++++++++++-----
 3 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index c4030fb..a1ff429 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -46,10 +46,13 @@ namespace UtyMap.Unity.Data
         private readonly IMapDataProvider _mapDataProvider;
         private readonly IMapDataLibrary _mapDataLibrary;
 
+        private readonly object _lockObj = new object();
         private readonly List<string> _storageKeys = new List<string>();
-        private readonly List<IObserver<MapData>> _dataObservers = new List<IObserver<MapData>>();
-        private readonly List<IObserver<Tile>> _tileObservers = new List<IObserver<Tile>>();
-        private readonly List<IObserver<Element>> _elementObservers = new List<IObserver<Element>>();
+
+        // NOTE observers are notified from different threads: lists are replaced, not changed
+        private volatile List<IObserver<MapData>> _dataObservers = new List<IObserver<MapData>>();
+        private volatile List<IObserver<Tile>> _tileObservers = new List<IObserver<Tile>>();
+        private volatile List<IObserver<Element>> _elementObservers = new List<IObserver<Element>>();
 
         [Dependency]
         public MapDataStore(IMapDataProvider mapDataProvider, IMapDataLibrary mapDataLibrary)
@@ -148,21 +151,24 @@ namespace UtyMap.Unity.Data
         /// <summary> Subscribes on mesh/element data loaded events. </summary>
         public IDisposable Subscribe(IObserver<MapData> observer)
         {
-            _dataObservers.Add(observer);
+            lock (_lockObj)
+                _dataObservers = new List<IObserver<MapData>>(_dataObservers) { observer };
             return Disposable.Empty;
         }
 
         /// <summary> Subscribes on tile fully load event. </summary>
         public IDisposable Subscribe(IObserver<Tile> observer)
         {
-            _tileObservers.Add(observer);
+            lock (_lockObj)
+                _tileObservers = new List<IObserver<Tile>>(_tileObservers) { observer };
             return Disposable.Empty;
         }
 
         /// <summary> Subscribes on element search event. </summary>
         public IDisposable Subscribe(IObserver<Element> observer)
         {
-            _elementObservers.Add(observer);
+            lock (_lockObj)
+                _elementObservers = new List<IObserver<Element>>(_elementObservers) { observer };
             return Disposable.Empty;
         }
 
diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 84e0a0b..55c9cb2 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -32,7 +32,9 @@ namespace UtyMap.Unity.Geocoding
         private string _searchPath;
         private string _reverseSearchPath;
 
-        private List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
+        private readonly object _lockObj = new object();
+        // NOTE observers are notified from different threads: list is replaced, not changed
+        private volatile List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
 
         [Dependency]
         public NominatimGeocoder(INetworkService networkService, ITrace trace)
@@ -44,14 +46,16 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         public IDisposable Subscribe(IObserver<GeocoderResult> observer)
         {
-            _observers.Add(observer);
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>(_observers) { observer };
             return Disposable.Empty;
         }
 
         /// <inheritdoc />
         void IObserver<Tuple<string, BoundingBox>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -63,7 +67,8 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         void IObserver<Tuple<GeoCoordinate, float>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -159,7 +164,8 @@ namespace UtyMap.Unity.Geocoding
         public void Dispose()
         {
             _observers.ForEach(o => o.OnCompleted());
-            _observers.Clear();
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
     }
 }
diff --git a/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs
index 36bfce8..945b3ec 100644
--- a/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs
@@ -15,7 +15,9 @@ namespace UtyMap.Unity.Geocoding
         private readonly string _andTerms = "addr street housenumber";
         private readonly string _orTerms = "";
 
-        private readonly List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
+        private readonly object _lockObj = new object();
+        // NOTE observers are notified from different threads: list is replaced, not changed
+        private volatile List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
         private readonly IDisposable _subscription;
 
         /// <summary> Expected address tags. </summary>
@@ -40,14 +42,16 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         public IDisposable Subscribe(IObserver<GeocoderResult> observer)
         {
-            _observers.Add(observer);
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>(_observers) { observer };
             return Disposable.Empty;
         }
 
         /// <inheritdoc />
         void IObserver<Tuple<string, BoundingBox>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -59,7 +63,8 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         void IObserver<Tuple<GeoCoordinate, float>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -110,7 +115,8 @@ namespace UtyMap.Unity.Geocoding
         public void Dispose()
         {
             _observers.ForEach(o => o.OnCompleted());
-            _observers.Clear();
+            lock (_lockObj)
+                _observers = new List<IObserver<GeocoderResult>>();
             _subscription.Dispose();
         }
     }
-- 
2.43.0


From c79ccae27228b750e36af5d9cdb5cb46783b30d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 40/45] fix: element should stay registered until all its tiles
 are disposed

---
 unity/library/UtyMap.Unity/Tile.cs | 39 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Tile.cs b/unity/library/UtyMap.Unity/Tile.cs
index e6a0e1f..3360767 100644
--- a/unity/library/UtyMap.Unity/Tile.cs
+++ b/unity/library/UtyMap.Unity/Tile.cs
@@ -1,4 +1,5 @@
 ﻿using System;
+using System.Collections.Generic;
 using UnityEngine;
 using UtyMap.Unity.Data;
 using UtyMap.Unity.Infrastructure.Primitives;
@@ -10,10 +11,13 @@ namespace UtyMap.Unity
     public sealed class Tile : IDisposable
     {
         /// <summary> Stores element ids loaded in this tile. </summary>
-        private readonly SafeHashSet<long> _localIds = new SafeHashSet<long>();
+        private readonly HashSet<long> _localIds = new HashSet<long>();
 
-        /// <summary> Stores element ids loaded for all tiles. </summary>
-        private static readonly SafeHashSet<long> GlobalIds = new SafeHashSet<long>();
+        /// <summary> Stores element ids loaded for all tiles with amount of tiles which use them. </summary>
+        private static readonly Dictionary<long, int> GlobalIds = new Dictionary<long, int>();
+
+        /// <summary> Protects ids as they are used from different threads. </summary>
+        private static readonly object IdsLock = new object();
 
         /// <summary> Used to cancel tile loading in native code. </summary>
         public readonly CancellationToken CancelationToken;
@@ -64,7 +68,8 @@ namespace UtyMap.Unity
         /// <returns> True if registration is found. </returns>
         public bool Has(long id)
         {
-            return GlobalIds.Contains(id) || _localIds.Contains(id);
+            lock (IdsLock)
+                return GlobalIds.ContainsKey(id);
         }
 
         /// <summary> Register element with given id inside to prevent multiple loading. </summary>
@@ -74,11 +79,15 @@ namespace UtyMap.Unity
         /// </remarks>
         public void Register(long id)
         {
-            if (IsDisposed)
-                return;
+            lock (IdsLock)
+            {
+                if (IsDisposed || !_localIds.Add(id))
+                    return;
 
-            _localIds.Add(id);
-            GlobalIds.Add(id);
+                int count;
+                GlobalIds.TryGetValue(id, out count);
+                GlobalIds[id] = count + 1;
+            }
         }
 
         /// <inheritdoc />
@@ -94,12 +103,16 @@ namespace UtyMap.Unity
         {
             // notify native code.
             CancelationToken.SetCancelled(true);
-            IsDisposed = true;
+            lock (IdsLock)
+            {
+                IsDisposed = true;
 
-            // remove all registered ids from global list if they are in current registry
-            foreach (var id in _localIds)
-                GlobalIds.Remove(id);
-            _localIds.Clear();
+                // remove registered ids from global list unless they are used by other tile
+                foreach (var id in _localIds)
+                    if (--GlobalIds[id] == 0)
+                        GlobalIds.Remove(id);
+                _localIds.Clear();
+            }
 
             if (GameObject != null)
             {
-- 
2.43.0


From 8910687992d9b928195c91bc0f4cd8c4623bb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 41/45] fix: elevation request should be valid json

---
 .../Data/Providers/Elevation/MapzenElevationDataProvider.cs    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
index 806ed72..3b9931b 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
@@ -62,8 +62,9 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetJsonPayload(QuadKey quadkey)
         {
+            // NOTE polyline may contain backslash which has to be escaped in json
             return String.Format("{{\"range\":false,\"encoded_polyline\":\"{0}\"}}",
-                EncodePolyline(CreatePolyline(quadkey)));
+                EncodePolyline(CreatePolyline(quadkey)).Replace(@"\", @"\\"));
         }
 
         private IEnumerable<GeoCoordinate> CreatePolyline(QuadKey quadkey)
-- 
2.43.0


From 7f78f4eebd3740ad78d16108982944dbaf06724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 42/45] fix: area of geocoding request should be readable for
 the server

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 55c9cb2..089cdea 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -87,12 +87,12 @@ namespace UtyMap.Unity.Geocoding
             sb.Append(_searchPath);
             if (area != null)
             {
-                sb.Append(Uri.EscapeDataString(String.Format(CultureInfo.InvariantCulture,
+                sb.Append(String.Format(CultureInfo.InvariantCulture,
                     "viewbox={0:f4},{1:f4},{2:f4},{3:f4}&",
                     area.MinPoint.Longitude,
                     area.MinPoint.Latitude,
                     area.MaxPoint.Longitude,
-                    area.MaxPoint.Latitude)));
+                    area.MaxPoint.Latitude));
             }
             sb.AppendFormat("q={0}&format=json", Uri.EscapeDataString(name));
 
-- 
2.43.0


From 8a282d2c27a2b963cc6ff28feadf23ea7090111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 43/45] fix: bounding box of geocoding result should not be
 lost

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 089cdea..07ffb66 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -126,11 +126,11 @@ namespace UtyMap.Unity.Geocoding
         private GeocoderResult ParseGeocoderResult(JSONNode resultNode)
         {
             BoundingBox bbox = null;
-            string[] bboxArray = resultNode["boundingbox"].Value.Split(',');
-            if (bboxArray.Length == 4)
+            var bboxArray = resultNode["boundingbox"].AsArray;
+            if (bboxArray != null && bboxArray.Count == 4)
             {
-                bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0], bboxArray[2]),
-                    ParseGeoCoordinate(bboxArray[1], bboxArray[3]));
+                bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0].Value, bboxArray[2].Value),
+                    ParseGeoCoordinate(bboxArray[1].Value, bboxArray[3].Value));
             }
 
             var id = long.Parse(resultNode["osm_id"].Value);
-- 
2.43.0


From 35fa3d2bcba5b86210dfefae001f859d4379f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 44/45] fix: data of tile should be imported once and
 completely

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 12 +++++++++++-
 unity/library/UtyMap.Unity/Data/MapDataStore.cs   |  9 ++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 509ebbe..19f5d78 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -106,6 +106,7 @@ namespace UtyMap.Unity.Data
         private volatile bool _isConfigured;
 
         private readonly HashSet<string> _stylePaths = new HashSet<string>();
+        private readonly HashSet<QuadKey> _importedQuadKeys = new HashSet<QuadKey>();
 
         [Dependency]
         public MapDataLibrary(IPathResolver pathResolver, ITrace trace)
@@ -165,7 +166,10 @@ namespace UtyMap.Unity.Data
         /// <inheritdoc />
         public bool Exists(QuadKey quadKey)
         {
-            return hasData(quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail);
+            // NOTE there is only a part of data until import is finished
+            lock (_importedQuadKeys)
+                return !_importedQuadKeys.Contains(quadKey) &&
+                    hasData(quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail);
         }
 
         /// <inheritdoc />
@@ -201,9 +205,15 @@ namespace UtyMap.Unity.Data
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
+                lock (_importedQuadKeys)
+                    _importedQuadKeys.Add(quadKey);
+
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInQuadKey(
                     storageKey, RegisterStylesheet(stylesheet), dataPath, quadKey.TileX, quadKey.TileY,
                     quadKey.LevelOfDetail, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
+
+                lock (_importedQuadKeys)
+                    _importedQuadKeys.Remove(quadKey);
             }
             return Observable.Return<int>(100);
         }
diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index a1ff429..7c4858c 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -47,6 +47,7 @@ namespace UtyMap.Unity.Data
         private readonly IMapDataLibrary _mapDataLibrary;
 
         private readonly object _lockObj = new object();
+        private readonly object _importLock = new object();
         private readonly List<string> _storageKeys = new List<string>();
 
         // NOTE observers are notified from different threads: lists are replaced, not changed
@@ -107,9 +108,11 @@ namespace UtyMap.Unity.Data
         /// <inheritdoc />
         public IObservable<int> AddTo(string storageKey, string dataPath, Stylesheet stylesheet, QuadKey quadKey, CancellationToken cancellationToken)
         {
-            return _mapDataLibrary.Exists(quadKey)
-                ? Observable.Return<int>(100)
-                : _mapDataLibrary.AddTo(storageKey, dataPath, stylesheet, quadKey, cancellationToken);
+            // NOTE different requests may need the same data: they should be imported once
+            lock (_importLock)
+                return _mapDataLibrary.Exists(quadKey)
+                    ? Observable.Return<int>(100)
+                    : _mapDataLibrary.AddTo(storageKey, dataPath, stylesheet, quadKey, cancellationToken);
         }
 
         /// <inheritdoc />
-- 
2.43.0


From fd4c4375a937a12f114b7c72f0a1914c2000982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 45/45] fix: a hole of a polygon with an island inside was
 filled, and the island was cut out instead

---
 core/src/builders/MeshBuilder.cpp |   5 +-
 core/src/math/Polygon.hpp         | 131 ++++++++++++++++--------------
 2 files changed, 73 insertions(+), 63 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index a222812..f2b71ab 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -134,13 +134,14 @@ void MeshBuilder::addPolygon(Mesh &mesh,
   triangulateio in, mid;
 
   in.numberofpoints = static_cast<int>(polygon.points.size()/2);
-  in.numberofholes = static_cast<int>(polygon.holes.size()/2);
+  auto holes = polygon.getHoles();
+  in.numberofholes = static_cast<int>(holes.size()/2);
   in.numberofpointattributes = 0;
   in.numberofregions = 0;
   in.numberofsegments = static_cast<int>(polygon.segments.size()/2);
 
   in.pointlist = polygon.points.data();
-  in.holelist = polygon.holes.data();
+  in.holelist = holes.data();
   in.segmentlist = polygon.segments.data();
   in.segmentmarkerlist = nullptr;
   in.pointmarkerlist = nullptr;
diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index 9f7d71b..969b7f3 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -3,6 +3,10 @@
 
 #include "Rectangle.hpp"
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 namespace utymap {
 namespace math {
 
@@ -13,7 +17,6 @@ class Polygon final {
   typedef std::pair<std::size_t, std::size_t> Range;
 
   std::vector<double> points;
-  std::vector<double> holes;
   std::vector<int> segments;
 
   /// defines outer shape
@@ -25,7 +28,7 @@ class Polygon final {
 
   Polygon(std::size_t numberOfPoints, std::size_t numberOfHoles = 1) {
     points.reserve(numberOfPoints*2);
-    holes.reserve(numberOfHoles*2);
+    inners.reserve(numberOfHoles);
     segments.reserve(numberOfPoints*2);
   }
 
@@ -37,6 +40,15 @@ class Polygon final {
     addContour(hole, true);
   }
 
+  /// Gets points which mark holes. They are searched when all contours are known as a hole might have islands
+  /// inside which can also split it into several parts.
+  std::vector<double> getHoles() const {
+    std::vector<double> holes;
+    for (const auto &inner : inners)
+      addHolePoints(inner, holes);
+    return holes;
+  }
+
  private:
   void addContour(const std::vector<Vector2> &contour, bool isHole) {
     auto count = contour.size();
@@ -47,13 +59,6 @@ class Polygon final {
     auto endIndex = startIndex + count*2;
 
     if (isHole) {
-      Vector2 pointInside;
-      if (!findPointInPolygon(contour, pointInside)) {
-        // TODO log error
-        return;
-      }
-      holes.push_back(pointInside.x);
-      holes.push_back(pointInside.y);
       inners.push_back(std::make_pair(startIndex, endIndex));
     } else {
       outers.push_back(std::make_pair(startIndex, endIndex));
@@ -70,67 +75,71 @@ class Polygon final {
     }
   }
 
-  /// Tries to find point in polygon.
-  static bool findPointInPolygon(const std::vector<Vector2> &contour, Vector2 &point) {
-    Rectangle bounds;
-    bounds.expand(contour);
-
-    auto length = contour.size();
-    int limit = 8;
-
-    Vector2 a, b; // Current edge.
-    if (contour.size()==3) {
-      point = Vector2((contour[0].x + contour[1].x + contour[2].x)/3,
-                      (contour[0].y + contour[1].y + contour[2].y)/3);
-      return true;
+  /// Describes intersection of scan line with contour's edge.
+  struct Crossing {
+    double x;
+    int depth; // how number of covering outer shapes changes
+    bool isHole; // whether it is a border of current hole
+  };
+
+  /// Adds points which are inside of the hole, but outside of islands inside of it.
+  void addHolePoints(const Range &inner, std::vector<double> &holes) const {
+    const int lines = 16;
+    const double minRatio = 0.01;
+
+    double minY = points[inner.first + 1], maxY = minY;
+    for (auto i = inner.first; i < inner.second; i += 2) {
+      minY = std::min(minY, points[i + 1]);
+      maxY = std::max(maxY, points[i + 1]);
     }
 
-    for (std::size_t i = 0; i < length; i++) {
-      a = contour[i];
-      b = contour[(i + 1)%length];
-
-      double cx = (a.x + b.x)/2;
-      double cy = (a.y + b.y)/2;
-
-      double dx = (b.y - a.y)/1.374;
-      double dy = (a.x - b.x)/1.374;
-
-      for (int j = 1; j <= limit; j++) {
-        // Search to the right of the segment.
-        point.x = cx + dx/j;
-        point.y = cy + dy/j;
-
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
-
-        // Search on the other side of the segment.
-        point.x = cx - dx/j;
-        point.y = cy - dy/j;
-
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
+    std::vector<Crossing> crossings;
+    std::vector<std::pair<double, Vector2>> intervals; // length and middle point
+    double maxLength = 0;
+    for (int line = 0; line < lines; ++line) {
+      double y = minY + (maxY - minY)*(line + 0.5)/lines;
+
+      crossings.clear();
+      for (const auto &outer : outers)
+        addCrossings(outer, y, 1, false, crossings);
+      for (const auto &other : inners)
+        addCrossings(other, y, -1, other==inner, crossings);
+      std::sort(crossings.begin(), crossings.end(),
+                [](const Crossing &a, const Crossing &b) { return a.x < b.x; });
+
+      int depth = 0;
+      bool inHole = false;
+      for (std::size_t i = 0; i + 1 < crossings.size(); ++i) {
+        depth += crossings[i].depth;
+        inHole ^= crossings[i].isHole;
+        double length = crossings[i + 1].x - crossings[i].x;
+        if (inHole && depth <= 0 && length > 0) {
+          intervals.push_back(std::make_pair(length, Vector2(crossings[i].x + length/2, y)));
+          maxLength = std::max(maxLength, length);
+        }
       }
     }
 
-    return false;
+    for (const auto &interval : intervals) {
+      if (interval.first < maxLength*minRatio) continue;
+      holes.push_back(interval.second.x);
+      holes.push_back(interval.second.y);
+    }
   }
 
-  /// Checks whether point in polygon using ray casting algorithm
-  static bool isPointInPolygon(const Vector2 &point, const std::vector<Vector2> &poly) {
-    bool inside = false;
-    double x = point.x;
-    double y = point.y;
-    auto count = poly.size();
-
-    for (std::size_t i = 0, j = count - 1; i < count; i++) {
-      if (((poly[i].y < y && poly[j].y >= y) || (poly[j].y < y && poly[i].y >= y))
-          && (poly[i].x <= x || poly[j].x <= x)) {
-        inside ^= (poly[i].x + (y - poly[i].y)/(poly[j].y - poly[i].y)*(poly[j].x - poly[i].x) < x);
-      }
-      j = i;
+  /// Adds intersections of horizontal line with given contour.
+  void addCrossings(const Range &contour, double y, int depth, bool isHole, std::vector<Crossing> &crossings) const {
+    auto start = crossings.size();
+    for (auto i = contour.first, j = contour.second - 2; i < contour.second; j = i, i += 2) {
+      double x1 = points[i], y1 = points[i + 1], x2 = points[j], y2 = points[j + 1];
+      if ((y1 < y)!=(y2 < y))
+        crossings.push_back(Crossing {x1 + (y - y1)/(y2 - y1)*(x2 - x1), 0, isHole});
     }
 
-    return inside;
+    std::sort(crossings.begin() + start, crossings.end(),
+              [](const Crossing &a, const Crossing &b) { return a.x < b.x; });
+    for (auto i = start; i < crossings.size(); ++i)
+      crossings[i].depth = (i - start)%2==0 ? depth : -depth;
   }
 };
 
-- 
2.43.0

