// The buffer pool: chunk caching, pinning, eviction and growth against an explicit model.
#include "common/pbt.h"

#include "DataMgr/Allocators/ArenaAllocator.h"
#include "DataMgr/BufferMgr/Buffer.h"
#include "DataMgr/BufferMgr/BufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.h"
#include "DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.h"
#include "IR/Context.h"

#include <atomic>
#include <mutex>
#include <thread>

using namespace Data_Namespace;
using namespace Buffer_Namespace;

namespace {

uint8_t byteOf(const ChunkKey& k, size_t i) {
  uint64_t h = 77;
  for (auto x : k) {
    h = pbt::mix(h ^ static_cast<uint64_t>(x));
  }
  return static_cast<uint8_t>(pbt::mix(h + i / 8) >> (i % 8 * 8));
}

struct Token : AbstractDataToken {
  std::vector<int8_t> data;
  const int8_t* getMemoryPtr() const override { return data.data(); }
  size_t getSize() const override { return data.size(); }
  const hdk::ir::Type* getType() const override { return hdk::ir::Context::defaultCtx().int8(); }
};

// The storage below the pool. The content of a chunk is a function of its key.
struct Store : AbstractBufferMgr {
  std::map<ChunkKey, size_t> sizes;
  std::set<ChunkKey> zero_copy;
  std::atomic<int> fail{0};  // that many fetches fail
  std::atomic<int> fetches{0};
  bool slow = false;
  Store() : AbstractBufferMgr(0) {}
  AbstractBuffer* createBuffer(const ChunkKey&, const size_t, const size_t) override { abort(); }
  AbstractBuffer* createZeroCopyBuffer(const ChunkKey&, std::unique_ptr<AbstractDataToken>) override { abort(); }
  void deleteBuffer(const ChunkKey&, const bool) override { abort(); }
  void deleteBuffersWithPrefix(const ChunkKey&, const bool) override { abort(); }
  AbstractBuffer* getBuffer(const ChunkKey&, const size_t) override { abort(); }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t n) override {
    if (!zero_copy.count(key)) {
      return nullptr;
    }
    auto t = std::make_unique<Token>();
    t->data.resize(n);
    for (size_t i = 0; i < n; ++i) {
      t->data[i] = static_cast<int8_t>(byteOf(key, i));
    }
    return t;
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override {
    ++fetches;
    if (slow) {
      std::this_thread::yield();
    }
    if (fail > 0) {
      --fail;
      throw std::runtime_error("injected fetch failure");
    }
    size_t have = dest->size();
    if (n > have) {
      std::vector<int8_t> tmp(n - have);
      for (size_t i = have; i < n; ++i) {
        tmp[i - have] = static_cast<int8_t>(byteOf(key, i));
      }
      dest->append(tmp.data(), tmp.size());
      dest->clearDirtyBits();
    }
  }
  void getChunkMetadataVecForKeyPrefix(ChunkMetadataVector&, const ChunkKey&) override { abort(); }
  bool isBufferOnDevice(const ChunkKey&) override { return true; }
  std::string printSlabs() override { return ""; }
  size_t getMaxSize() override { return 0; }
  size_t getInUseSize() override { return 0; }
  size_t getAllocated() override { return 0; }
  bool isAllocationCapped() override { return false; }
  const DictDescriptor* getDictMetadata(int, bool) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  AbstractBuffer* alloc(const size_t) override { abort(); }
  void free(AbstractBuffer*) override { abort(); }
  MgrType getMgrType() override { return PERSISTENT_STORAGE_MGR; }
  std::string getStringMgrType() override { return "store"; }
  size_t getNumChunks() override { return 0; }
};

// A device whose memory is host memory.
struct Device : GpuMgr {
  std::map<int8_t*, size_t> mem;
  std::atomic<int> fail{0};
  std::mutex m;
  ~Device() override {
    for (auto& p : mem) {
      ::free(p.first);
    }
  }
  void copyHostToDevice(int8_t* d, const int8_t* h, const size_t n, const int) override { memcpy(d, h, n); }
  void copyHostToDeviceAsync(int8_t* d, const int8_t* h, const size_t n, const int) override { memcpy(d, h, n); }
  void synchronizeStream(const int) override {}
  void copyDeviceToHost(int8_t* h, const int8_t* d, const size_t n, const int) override { memcpy(h, d, n); }
  void copyDeviceToDevice(int8_t* d, int8_t* s, const size_t n, const int, const int) override { memmove(d, s, n); }
  void zeroDeviceMem(int8_t* d, const size_t n, const int) override { memset(d, 0, n); }
  void setDeviceMem(int8_t* d, const unsigned char c, const size_t n, const int) override { memset(d, c, n); }
  int8_t* allocateDeviceMem(const size_t n, const int) override {
    std::lock_guard<std::mutex> l(m);
    if (fail > 0) {
      --fail;
      throw std::runtime_error("injected allocation failure");
    }
    auto p = static_cast<int8_t*>(malloc(n));
    mem[p] = n;
    return p;
  }
  void freeDeviceMem(int8_t* p) override {
    std::lock_guard<std::mutex> l(m);
    if (!mem.erase(p)) {
      throw pbt::Fail("device memory freed twice");
    }
    ::free(p);
  }
  void setContext(const int) const override {}
  void synchronizeDevices() const override {}
  int getDeviceCount() const override { return 1; }
  GpuMgrPlatform getPlatform() const override { return GpuMgrPlatform::CUDA; }
  size_t getTotalMem(const int) const override { return 1 << 30; }
  uint32_t getMaxBlockSize() const override { return 1; }
  int8_t getSubGroupSize() const override { return 1; }
  uint32_t getGridSize() const override { return 1; }
  uint32_t getMinEUNumForAllDevices() const override { return 1; }
  bool hasSharedMemoryAtomicsSupport() const override { return false; }
  bool canLoadAsync() const override { return false; }
  size_t getMinSharedMemoryPerBlockForAllDevices() const override { return 1; }
};

struct CpuPool : CpuBufferMgr {
  using CpuBufferMgr::CpuBufferMgr;
  std::atomic<int> fail{0};

 private:
  void addSlab(const size_t n) override {
    if (fail > 0) {
      --fail;
      throw FailedToCreateSlab(n);
    }
    CpuBufferMgr::addSlab(n);
  }
};

void checkSlabs(BufferMgr& m, size_t max_slab_pages, const char* who) {
  size_t total = 0, used = 0;
  for (auto& slab : m.getSlabSegments()) {
    size_t next = 0;
    for (auto& seg : slab) {
      REQUIRE(seg.start_page >= 0 && static_cast<size_t>(seg.start_page) == next, who << ": a segment starts at page " << seg.start_page << " instead of " << next);
      next += seg.num_pages;
      if (seg.mem_status == USED) {
        REQUIRE(seg.buffer, who << ": a used segment without a buffer");
        used += seg.num_pages;
      }
    }
    REQUIRE(next > 0 && next <= max_slab_pages, who << ": a slab of " << next << " pages");
    total += next;
  }
  REQUIRE(total * m.getPageSize() == m.getAllocated(), who << ": " << total << " pages in slabs, " << m.getAllocated() << " bytes reported as allocated");
  REQUIRE(m.getAllocated() <= m.getMaxSize(), who << ": more memory allocated than allowed");
  REQUIRE(used * m.getPageSize() == m.getInUseSize(), who << ": in-use size");
}

struct Rec {
  AbstractBuffer* buf = nullptr;
  int pins = 0;
  bool backed = false;
  std::vector<int8_t> content;  // local buffers
  size_t known = 0;             // bytes of a backed chunk that were requested so far
  size_t used = 0;              // when it was last asked for; 0: unknown
};

struct World {
  pbt::Case& c;
  pbt::Src& s;
  Store store;
  Device dev;
  std::unique_ptr<BufferMgr> mid, mgr;
  CpuPool* cpu = nullptr;
  size_t page, max_slab_pages, pool_pages, min_slab_pages;
  bool gpu = false, faults = false;
  std::map<ChunkKey, Rec> live;
  std::vector<ChunkKey> keys;
  std::ostringstream log;
  size_t evictions = 0, ooms = 0, tick = 0;

  explicit World(pbt::Case& c_) : c(c_), s(c_.s) {
    page = s.pick<size_t>({16, 64, 512});
    max_slab_pages = s.size(2, 16);
    min_slab_pages = s.size(1, max_slab_pages);
    pool_pages = s.chance(1, 8) ? s.size(min_slab_pages, max_slab_pages) : max_slab_pages * s.size(1, 3) + s.draw(max_slab_pages - 1);
    size_t kind = s.draw(3);
    AbstractBufferMgr* parent = &store;
    faults = s.chance(1, 3);
    if (kind >= 2) {
      // Never out of memory: a growing chunk occupies one slab and fits another, and a failure there ends the process.
      size_t mp = max_slab_pages * 3;
      mid = std::make_unique<CpuPool>(0, mp * page * s.size(2, 4), &dev, page, mp * page, page, &store);
      parent = mid.get();
    }
    if (kind == 0 || kind == 2) {
      auto p = std::make_unique<CpuPool>(0, pool_pages * page, &dev, min_slab_pages * page, max_slab_pages * page, page, parent);
      cpu = p.get();
      mgr = std::move(p);
    } else if (kind == 1 && s.draw(1)) {
      size_t dram = s.draw(pool_pages);
      CpuTierSizeVector sizes(numCpuTiers, 0);
      sizes[CpuTier::DRAM] = dram * page;
      sizes[CpuTier::PMEM] = (pool_pages - dram) * page;
      mgr = std::make_unique<TieredCpuBufferMgr>(0, pool_pages * page, &dev, min_slab_pages * page, max_slab_pages * page, page, sizes, parent);
      faults = true;  // a slab may not fit a tier
    } else {
      mgr = std::make_unique<GpuBufferMgr>(0, pool_pages * page, &dev, min_slab_pages * page, max_slab_pages * page, page, parent);
      gpu = true;
    }
    size_t nk = s.size(2, 8);
    for (size_t i = 0; i < nk; ++i) {
      ChunkKey k{1, static_cast<int>(s.draw(1)) + 1, static_cast<int>(s.draw(2)), static_cast<int>(i)};
      keys.push_back(k);
      store.sizes[k] = 1 + s.draw(page * max_slab_pages * 3 / 2);
      if (!gpu && !mid && s.chance(1, 12)) {
        store.zero_copy.insert(k);
      }
    }
    log << (gpu ? "gpu" : cpu ? "cpu" : "tiered") << (mid ? " over cpu" : "") << " page " << page << " slab " << min_slab_pages << ".." << max_slab_pages << " pool " << pool_pages << ";";
  }
  ~World() {
    mgr.reset();
    mid.reset();
  }
  std::vector<int8_t> contentOf(const ChunkKey& k, const Rec& r) const {
    if (!r.backed) {
      return r.content;
    }
    std::vector<int8_t> v(r.known);
    for (size_t i = 0; i < v.size(); ++i) {
      v[i] = static_cast<int8_t>(byteOf(k, i));
    }
    return v;
  }
  static std::string show(const ChunkKey& k) {
    std::string r;
    for (auto x : k) {
      r += (r.empty() ? "" : ".") + std::to_string(x);
    }
    return r;
  }
  void checkContent(const ChunkKey& k, const Rec& r) {
    auto want = contentOf(k, r);
    REQUIRE(r.buf->size() >= want.size() && (r.backed || r.buf->size() == want.size()), "chunk " << show(k) << " has " << r.buf->size() << " bytes instead of " << want.size());
    if (want.empty()) {
      return;
    }
    REQUIRE(r.buf->getMemoryPtr() && r.buf->reservedSize() >= want.size(), "chunk " << show(k) << " has no memory");
    std::vector<int8_t> got(want.size());
    r.buf->read(got.data(), got.size(), 0, CPU_LEVEL, 0);
    REQUIRE(got == want, "the content of chunk " << show(k) << " changed");
  }
  // What the slabs looked like before an operation.
  struct Snap {
    std::vector<std::vector<std::pair<BufferSeg, int>>> slabs;  // segment and its pin count
    size_t pages = 0;
  };
  Snap snap() {
    Snap r;
    for (auto& slab : mgr->getSlabSegments()) {
      r.slabs.emplace_back();
      for (auto& seg : slab) {
        r.slabs.back().emplace_back(seg, seg.mem_status == USED && seg.buffer ? reinterpret_cast<AbstractBuffer*>(seg.buffer) ? static_cast<AbstractBuffer*>(seg.buffer)->getPinCount() : 0 : 0);
        r.pages += seg.num_pages;
      }
    }
    return r;
  }
  // The lowest possible age of what has to be evicted to get a run of pages; none when no run can be freed.
  std::optional<size_t> bestScore(const Snap& sn, size_t pages, const ChunkKey* subject) {
    std::optional<size_t> best;
    for (auto& slab : sn.slabs) {
      for (size_t i = 0; i < slab.size(); ++i) {
        size_t n = 0, score = 0;
        for (size_t j = i; j < slab.size() && !(slab[j].first.mem_status == USED && (slab[j].second > 0 || (subject && slab[j].first.chunk_key == *subject))); ++j) {
          n += slab[j].first.num_pages;
          if (slab[j].first.mem_status == USED) {
            score = std::max<size_t>(score, slab[j].first.last_touched);
          }
          if (n >= pages) {
            if (!best || score < *best) {
              best = score;
            }
            break;
          }
        }
      }
    }
    return best;
  }
  size_t pagesFor(size_t bytes) const { return (bytes + page - 1) / page; }
  void oom(const Snap& sn, size_t bytes, const std::exception& e, const ChunkKey* subject = nullptr) {
    ++ooms;
    log << " OOM;";
    size_t p = pagesFor(bytes);
    if (dynamic_cast<const TooBigForSlab*>(&e)) {
      REQUIRE(p > max_slab_pages || mid, "a request of " << p << " pages is reported as too big for a slab of " << max_slab_pages);
      return;
    }
    if (mid) {
      return;
    }
    REQUIRE(!bestScore(sn, p, subject), "out of memory although " << p << " pages can be made free");
    if (!faults) {
      size_t left = std::min(max_slab_pages, pool_pages - sn.pages);
      REQUIRE(p > left, "out of memory although a slab of " << left << " pages could be added for " << p << " pages");
    }
  }
  void sync(const Snap& sn, const ChunkKey* subject, size_t pages) {
    size_t evicted = 0, newest = 0;
    for (auto it = live.begin(); it != live.end();) {
      bool on = mgr->isBufferOnDevice(it->first);
      if (it->second.pins > 0) {
        REQUIRE(on, "pinned chunk " << show(it->first) << " vanished");
        ++it;
      } else if (!on) {
        ++evicted;
        for (auto& slab : sn.slabs) {
          for (auto& seg : slab) {
            if (seg.first.mem_status == USED && seg.first.chunk_key == it->first) {
              newest = std::max<size_t>(newest, seg.first.last_touched);
            }
          }
        }
        it = live.erase(it);
      } else {
        ++it;
      }
    }
    evictions += evicted;
    if (evicted) {
      log << " (" << evicted << " evicted)";
      REQUIRE(pages, "chunks were evicted although no memory was requested");
      auto best = bestScore(sn, pages, subject);
      REQUIRE(best, "chunks were evicted although that cannot free " << pages << " pages");
      REQUIRE(newest <= *best || mid, "a chunk touched at " << newest << " was evicted although touching nothing newer than " << *best << " was enough");
      REQUIRE(*best != 0 || newest == 0, "chunks were evicted although free memory was available");
    }
  }
  void checkAll() {
    checkSlabs(*mgr, max_slab_pages, "pool");
    if (mid) {
      checkSlabs(*mid, mid->getMaxSlabSize() / page, "parent pool");
      for (auto& slab : mid->getSlabSegments()) {
        for (auto& seg : slab) {
          REQUIRE(seg.mem_status != USED || static_cast<AbstractBuffer*>(seg.buffer)->getPinCount() == 0, "chunk " << show(seg.chunk_key) << " stays pinned in the parent pool");
        }
      }
    }
    REQUIRE(mgr->getNumChunks() == live.size(), mgr->getNumChunks() << " chunks in the pool, expected " << live.size());
    std::map<int8_t*, size_t> ranges;
    for (auto& [k, r] : live) {
      REQUIRE(r.buf->getPinCount() == r.pins, "chunk " << show(k) << " has " << r.buf->getPinCount() << " pins instead of " << r.pins);
      checkContent(k, r);
      if (r.buf->getMemoryPtr() && r.buf->reservedSize()) {
        REQUIRE(ranges.emplace(r.buf->getMemoryPtr(), r.buf->reservedSize()).second, "two chunks share memory");
      }
    }
    int8_t* end = nullptr;
    for (auto& [p, n] : ranges) {
      REQUIRE(p >= end, "the memory of two chunks overlaps");
      end = p + n;
    }
    // The memory report lists exactly the segments.
    auto mi = mgr->getMemoryInfo();
    REQUIRE(mi.pageSize == page && mi.numPageAllocated * page == mgr->getAllocated() && mi.maxNumPages == mgr->getMaxSize() / page &&
                mi.isAllocationCapped == mgr->isAllocationCapped(),
            "the memory report says " << mi.numPageAllocated << " of " << mi.maxNumPages << " pages of " << mi.pageSize);
    size_t listed = 0, slab_no = 0;
    for (auto& slab : mgr->getSlabSegments()) {
      for (auto& seg : slab) {
        REQUIRE(listed < mi.nodeMemoryData.size(), "the memory report misses a segment");
        auto& md = mi.nodeMemoryData[listed++];
        REQUIRE(md.slabNum == slab_no && md.startPage == seg.start_page && md.numPages == seg.num_pages && md.touch == seg.last_touched &&
                    md.memStatus == seg.mem_status && md.chunk_key == seg.chunk_key,
                "the memory report differs for segment " << listed - 1);
      }
      ++slab_no;
    }
    REQUIRE(listed == mi.nodeMemoryData.size(), "the memory report lists too many segments");
    std::set<ChunkKey> segs;
    std::map<size_t, size_t> order;  // ages of the chunks of the storage by the order they were asked for
    for (auto& slab : mgr->getSlabSegments()) {
      for (auto& seg : slab) {
        if (seg.mem_status == USED) {
          REQUIRE(segs.insert(seg.chunk_key).second, "chunk " << show(seg.chunk_key) << " has two segments");
          auto it = live.find(seg.chunk_key);
          REQUIRE(it != live.end() && it->second.buf == static_cast<AbstractBuffer*>(seg.buffer), "segment of unknown chunk " << show(seg.chunk_key));
          if (it->second.used) {
            order[it->second.used] = seg.last_touched;
          }
          REQUIRE(seg.num_pages * page >= it->second.buf->reservedSize(), "the segment of " << show(seg.chunk_key) << " is smaller than its buffer");
        }
      }
    }
    size_t prev = 0;
    for (auto& [when, age] : order) {
      REQUIRE(age > prev || when == order.begin()->first, "a chunk used later counts as used at " << age << ", not after " << prev);
      prev = age;
    }
    for (auto& [k, r] : live) {
      REQUIRE(segs.count(k) || !r.buf->reservedSize(), "chunk " << show(k) << " lost its segment");
    }
  }
  std::optional<ChunkKey> pickLive(std::function<bool(const Rec&)> f) {
    std::vector<ChunkKey> v;
    for (auto& [k, r] : live) {
      if (f(r)) {
        v.push_back(k);
      }
    }
    if (v.empty()) {
      return std::nullopt;
    }
    return v[s.draw(v.size() - 1)];
  }
  std::vector<int8_t> bytes(size_t n) {
    std::vector<int8_t> v(n);
    uint64_t x = s.draw(UINT32_MAX);
    for (auto& b : v) {
      x = pbt::mix(x);
      b = static_cast<int8_t>(x);
    }
    return v;
  }
  size_t someSize() { return s.draw(4) == 0 ? s.size(1, page * max_slab_pages + page) : s.size(1, page * std::max<size_t>(1, max_slab_pages / 2)); }

  void step() {
    auto sn = snap();
    size_t pages = 0;
    const ChunkKey* subject = nullptr;
    switch (s.weighted({8, 6, 3, 2, 3, 3, 2, 1, 2, 2, 1, 2, 2})) {
      case 0: {  // get a chunk of the storage
        auto& k = s.pick(keys);
        size_t n = s.size(1, store.sizes[k]);
        log << " get " << show(k) << " " << n;
        subject = &k;
        if (store.zero_copy.count(k)) {
          auto b = mgr->getBuffer(k, n);
          REQUIRE(b->size() == n && b->getPinCount() == 1, "zero-copy buffer of " << n << " bytes");
          for (size_t i = 0; i < n; ++i) {
            REQUIRE(b->getMemoryPtr()[i] == static_cast<int8_t>(byteOf(k, i)), "content of a zero-copy buffer");
          }
          b->unPin();
          break;
        }
        auto it = live.find(k);
        bool have = it != live.end();
        size_t old = have ? it->second.buf->reservedSize() : 0;
        pages = n > old ? pagesFor(n) : 0;
        if (have) {
          it->second.used = 0;
        }
        try {
          auto b = mgr->getBuffer(k, n);
          auto& r = live[k];
          REQUIRE(!have || r.buf == b, "a second buffer for chunk " << show(k));
          r.buf = b;
          r.backed = true;
          ++r.pins;
          r.known = std::max(r.known, n);
          r.used = ++tick;
          REQUIRE(b->size() >= n, "chunk " << show(k) << " has only " << b->size() << " of " << n << " bytes");
        } catch (const OutOfMemory& e) {
          oom(sn, n, e, subject);
          pages = 0;
          if (mid) {
            pages = 1u << 30;  // something may have been evicted before the parent ran out of memory
          }
        } catch (const std::runtime_error& e) {
          REQUIRE(std::string(e.what()) == "injected fetch failure", "unexpected error " << e.what());
          log << " failed;";
        }
        if (pages == (1u << 30)) {
          pages = pagesFor(n);
        }
        break;
      }
      case 1: {
        if (auto k = pickLive([](const Rec& r) { return r.pins > 0 && r.backed; })) {
          log << " unpin " << show(*k);
          auto& r = live[*k];
          --r.pins;
          REQUIRE(r.buf->unPin() == r.pins, "pin count");
        }
        break;
      }
      case 2: {
        size_t n = someSize();
        log << " alloc " << n;
        pages = pagesFor(n);
        try {
          auto b = mgr->alloc(n);
          REQUIRE(b->reservedSize() >= n && b->size() == 0 && b->getMemoryPtr(), "allocated " << b->reservedSize() << " of " << n << " bytes");
          ChunkKey key;
          for (auto& slab : mgr->getSlabSegments()) {
            for (auto& seg : slab) {
              if (seg.mem_status == USED && static_cast<AbstractBuffer*>(seg.buffer) == b) {
                key = seg.chunk_key;
              }
            }
          }
          REQUIRE(!key.empty() && !live.count(key), "the key of an allocated buffer");
          auto& r = live[key];
          r.buf = b;
          r.pins = 1;
        } catch (const OutOfMemory& e) {
          oom(sn, n, e);
          pages = 0;
        }
        break;
      }
      case 3: {
        if (auto k = pickLive([](const Rec& r) { return !r.backed && r.pins == 1; })) {
          log << " free " << show(*k);
          auto b = live[*k].buf;
          live.erase(*k);
          if ((*k)[0] == -1) {
            mgr->free(b);
          } else {
            mgr->deleteBuffer(*k);
          }
        }
        break;
      }
      case 4:
      case 5:
      case 6: {  // write, append or reserve
        auto k = pickLive([](const Rec& r) { return !r.backed && r.pins > 0; });
        if (!k) {
          break;
        }
        auto& r = live[*k];
        size_t kind = s.draw(2);
        size_t off = kind == 0 ? s.draw(r.content.size()) : r.content.size();
        size_t n = s.size(1, page * 3);
        size_t need = off + n;
        log << (kind == 0 ? " write " : kind == 1 ? " append " : " reserve ") << show(*k) << " " << off << "+" << n;
        size_t ps = r.buf->pageSize();
        pages = need > r.buf->reservedSize() ? pagesFor((need + ps - 1) / ps * ps) : 0;
        auto data = bytes(n);
        try {
          if (kind == 0) {
            r.buf->write(data.data(), n, off, CPU_LEVEL, 0);
          } else if (kind == 1) {
            r.buf->append(data.data(), n, CPU_LEVEL, 0);
          } else {
            r.buf->reserve(need);
            REQUIRE(r.buf->reservedSize() >= need, "reserve(" << need << ") gave " << r.buf->reservedSize());
          }
          if (kind < 2) {
            r.content.resize(std::max(r.content.size(), need));
            std::copy(data.begin(), data.end(), r.content.begin() + off);
            REQUIRE(r.buf->isDirty() && (need <= off || r.buf->isUpdated() || r.buf->isAppended()), "dirty flags");
          }
        } catch (const OutOfMemory& e) {
          oom(sn, pages * page, e);
          pages = 0;
        }
        break;
      }
      case 7: {
        ChunkKey p{1, static_cast<int>(s.draw(2))};
        if (s.draw(1)) {
          p.push_back(static_cast<int>(s.draw(2)));
        }
        log << " delete prefix " << show(p);
        mgr->deleteBuffersWithPrefix(p);
        for (auto it = live.begin(); it != live.end();) {
          bool match = it->first.size() >= p.size() && std::equal(p.begin(), p.end(), it->first.begin());
          if (match && it->second.pins == 0) {
            REQUIRE(!mgr->isBufferOnDevice(it->first), "chunk " << show(it->first) << " survived the deletion of its prefix");
            it = live.erase(it);
          } else {
            ++it;
          }
        }
        break;
      }
      case 8: {  // the chunk grows in the storage
        auto& k = s.pick(keys);
        store.sizes[k] = std::min(store.sizes[k] + s.draw(page * 2), page * max_slab_pages * 3);
        break;
      }
      case 9: {  // create a local chunk under a key
        ChunkKey k{2, static_cast<int>(s.draw(5)), 0, 0};
        if (live.count(k)) {
          break;
        }
        size_t n = s.draw(1) ? someSize() : 0;
        size_t ps = s.draw(1) ? 0 : s.pick<size_t>({page, page * 2, 8});
        size_t eff = ps ? ps : page;
        log << " create " << show(k) << " " << n << " page " << ps;
        pages = n ? pagesFor((n + eff - 1) / eff * eff) : 0;
        try {
          auto b = mgr->createBuffer(k, ps, n);
          REQUIRE(b->reservedSize() >= n && b->size() == 0, "created " << b->reservedSize() << " of " << n << " bytes");
          auto& r = live[k];
          r.buf = b;
          r.pins = 1;
        } catch (const OutOfMemory& e) {
          oom(sn, pages * page, e);
          pages = 0;
          REQUIRE(!mgr->isBufferOnDevice(k), "a chunk that could not be allocated stays in the pool");
        }
        break;
      }
      case 10: {
        if (std::any_of(live.begin(), live.end(), [](auto& x) { return x.second.pins > 0 && !x.second.buf->reservedSize(); })) {
          break;
        }
        log << " clear";
        mgr->clearSlabs();
        bool pinned = false;
        for (auto it = live.begin(); it != live.end();) {
          if (it->second.pins == 0) {
            it = live.erase(it);
          } else {
            pinned = true;
            ++it;
          }
        }
        REQUIRE(pinned || mgr->getAllocated() == 0, "memory remains allocated after clearing an unpinned pool");
        break;
      }
      case 11:
        if (faults) {
          int n = 1 + s.draw(4);
          log << " next " << n << " slabs fail";
          if (cpu) {
            cpu->fail = n;
          } else if (gpu) {
            dev.fail = n;
          }
        }
        break;
      default:
        if (!mid && s.draw(1)) {
          log << " next fetch fails";
          store.fail = 1;
        }
    }
    log << ";";
    if (getenv("PBT_TRACE")) {
      std::cerr << log.str() << std::endl;
      log.str("");
    }
    sync(sn, subject, pages);
    checkAll();
  }
};
}  // namespace

FACET(pool) {
  World w(c);
  try {
    for (size_t n = c.s.size(1, 40); n; --n) {
      w.step();
    }
  } catch (...) {
    c.describe([&](std::ostream& o) { o << w.log.str(); });
    throw;
  }
  c.describe([&](std::ostream& o) { o << w.log.str().substr(0, 600); });
  c.nontrivial(w.evictions > 0 || w.ooms > 0);
  c.label(w.evictions > 0, "evictions");
  c.label(w.ooms > 0, "out of memory");
  c.label(w.gpu, "gpu");
  c.label(w.mid != nullptr, "two levels");
}

FACET(threads) {
  auto& s = c.s;
  Store store;
  Device dev;
  store.slow = true;
  const size_t page = 64;
  size_t slab = s.size(8, 16);
  size_t pool = slab * s.size(1, 3);
  std::unique_ptr<BufferMgr> mid, mgr;
  bool gpu = s.draw(1);
  if (gpu) {
    mid = std::make_unique<CpuPool>(0, 64 * page * 64, &dev, page, page * 64, page, &store);
    mgr = std::make_unique<GpuBufferMgr>(0, pool * page, &dev, page, slab * page, page, mid.get());
  } else {
    mgr = std::make_unique<CpuPool>(0, pool * page, &dev, page, slab * page, page, &store);
  }
  size_t nk = s.size(2, 16), nt = s.size(2, 6);
  std::vector<ChunkKey> keys;
  for (size_t i = 0; i < nk; ++i) {
    keys.push_back({1, 1, 0, static_cast<int>(i)});
  }
  struct Op {
    int kind;
    size_t key, n;
    bool hold;
  };
  std::vector<std::vector<Op>> progs(nt);
  for (auto& p : progs) {
    for (size_t n = s.size(5, 60); n; --n) {
      p.push_back({static_cast<int>(s.weighted({6, 2, 1})), s.draw(nk - 1), s.size(1, page * 4), s.chance(1, 4)});
    }
  }
  std::mutex m;
  std::string err;
  std::atomic<size_t> ooms{0}, gets{0};
  std::atomic<int> ready{0};
  auto fail = [&](const std::string& e) {
    std::lock_guard<std::mutex> l(m);
    if (err.empty()) {
      err = e;
    }
  };
  auto run = [&](const std::vector<Op>& p) {
    ++ready;
    while (ready < static_cast<int>(nt)) {
    }
    std::vector<std::pair<AbstractBuffer*, std::pair<size_t, size_t>>> held;
    auto verify = [&](AbstractBuffer* b, size_t key, size_t n) {
      if (b->size() < n) {
        fail("a chunk of " + std::to_string(b->size()) + " bytes instead of " + std::to_string(n));
        return;
      }
      for (size_t i = 0; i < n; ++i) {
        if (b->getMemoryPtr()[i] != static_cast<int8_t>(byteOf(keys[key], i))) {
          fail("a pinned chunk has wrong content at byte " + std::to_string(i) + " of " + std::to_string(n));
          return;
        }
      }
    };
    try {
      for (auto& op : p) {
        try {
          if (op.kind == 0) {
            // every thread asks for the same size of a chunk, so that a buffer does not move while another thread reads it
            size_t n = (op.key * 37) % (page * 4) + 1;
            auto b = mgr->getBuffer(keys[op.key], n);
            ++gets;
            verify(b, op.key, n);
            if (op.hold && held.size() < 2) {
              held.push_back({b, {op.key, n}});
            } else {
              b->unPin();
            }
          } else if (op.kind == 1) {
            auto b = mgr->alloc(op.n);
            std::vector<int8_t> d(op.n, static_cast<int8_t>(op.n));
            b->write(d.data(), d.size(), 0, CPU_LEVEL, 0);
            std::this_thread::yield();
            if (memcmp(b->getMemoryPtr(), d.data(), d.size())) {
              fail("an allocated buffer was overwritten");
            }
            mgr->free(b);
          } else if (!held.empty()) {
            auto h = held.back();
            held.pop_back();
            verify(h.first, h.second.first, h.second.second);
            h.first->unPin();
          }
        } catch (const OutOfMemory&) {
          ++ooms;
        }
      }
      for (auto& h : held) {
        verify(h.first, h.second.first, h.second.second);
        h.first->unPin();
      }
    } catch (const std::exception& e) {
      fail(std::string("unexpected exception: ") + e.what());
    }
  };
  std::vector<std::thread> ts;
  for (auto& p : progs) {
    ts.emplace_back(run, std::cref(p));
  }
  for (auto& t : ts) {
    t.join();
  }
  c.describe([&](std::ostream& o) { o << nt << " threads, " << nk << " chunks, pool of " << pool << " pages, gpu " << gpu << ", " << gets << " gets, " << ooms << " out of memory"; });
  REQUIRE(err.empty(), err);
  checkSlabs(*mgr, slab, "pool");
  for (auto& sl : mgr->getSlabSegments()) {
    for (auto& seg : sl) {
      if (seg.mem_status == USED) {
        REQUIRE(static_cast<AbstractBuffer*>(seg.buffer)->getPinCount() == 0, "a chunk stays pinned");
        REQUIRE(mgr->isBufferOnDevice(seg.chunk_key), "a segment without an entry in the chunk index");
      }
    }
  }
  // everything can be had again
  for (auto& k : keys) {
    size_t n = (k[3] * 37) % (page * 4) + 1;
    auto b = mgr->getBuffer(k, n);
    for (size_t i = 0; i < n; ++i) {
      REQUIRE(b->getMemoryPtr()[i] == static_cast<int8_t>(byteOf(k, i)), "content after all");
    }
    b->unPin();
  }
  c.nontrivial(gets > 4);
  c.label(ooms > 0, "out of memory");
}

PBT_MAIN
