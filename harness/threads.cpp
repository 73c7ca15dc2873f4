// Drives the threaded readers and the counting through their C++ interface.
// The script of a run comes as a file of words, the results go to stdout.
#include <stempy/electron.h>
#include <stempy/reader.h>

#include <atomic>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <vector>

using namespace stempy;

static uint32_t table[256];

static uint32_t crc(const void* p, size_t n)
{
  uint32_t c = ~0u;
  auto b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    c = table[(c ^ b[i]) & 255] ^ (c >> 8);
  }
  return ~c;
}

struct Seen
{
  uint32_t position, frameNumber, crc, images;
  bool complete;
};

// Records blocks without ordering the threads that call it
struct Recorder
{
  std::vector<Seen> slots;
  std::atomic<size_t> next = { 0 };
  long throwAt;
  bool again;

  Recorder(size_t n, long t, bool a) : slots(n), throwAt(t), again(a) {}

  void operator()(Block& b)
  {
    auto i = next.fetch_add(1, std::memory_order_relaxed);
    auto k = static_cast<long>(i);
    if (k == throwAt || (again && throwAt >= 0 && k > throwAt)) {
      throw std::runtime_error("thrown by the functor");
    }
    if (i >= slots.size()) {
      return;
    }
    auto& h = b.header;
    slots[i] = { h.imageNumbers.at(0), h.frameNumber,
                 crc(b.data.get(), 576 * 576 * 2), h.imagesInBlock,
                 h.complete.at(0) };
  }
};

template <typename Reader>
void readAll(Reader& reader, size_t n, long throwAt, bool again)
{
  Recorder r(n + 16, throwAt, again);
  auto f = reader.readAll(r);
  f.get();
  auto k = r.next.load();
  for (size_t i = 0; i < k && i < r.slots.size(); ++i) {
    auto& s = r.slots[i];
    std::printf("B %u %u %u %u %d\n", s.position, s.frameNumber, s.crc,
                s.images, int(s.complete));
  }
}

template <typename Reader>
void count(Reader& reader, std::istream& in)
{
  ElectronCountOptions o;
  int row = 0;
  double dark, gain;
  in >> o.thresholdNumberOfBlocks >> o.numberOfSamples >>
    o.backgroundThresholdNSigma >> o.xRayThresholdNSigma >>
    o.scanDimensions.first >> o.scanDimensions.second >> row >> dark >> gain;
  o.applyRowDarkSubtraction = row != 0;
  o.applyRowDarkUseMean = row == 1;
  std::vector<float> darks(576 * 576, dark), gains(576 * 576, gain);
  if (dark >= 0) {
    o.darkReference = darks.data();
  }
  if (gain > 0) {
    o.gain = gains.data();
  }
  auto data = electronCount(&reader, o);
  auto& m = data.metadata;
  std::printf("M %.17g %.17g %.17g %d\n", m.backgroundThreshold,
              m.xRayThreshold, m.optimizedMean, m.numberOfSamples);
  std::printf("D %u %u %zu\n", data.scanDimensions.first,
              data.scanDimensions.second, data.data.size());
  for (size_t p = 0; p < data.data.size(); ++p) {
    for (auto& e : data.data[p]) {
      std::printf("E %zu", p);
      for (auto v : e) {
        std::printf(" %u", v);
      }
      std::printf("\n");
    }
  }
}

template <typename Reader>
void load(Reader&, std::istream&)
{
}

void load(SectorStreamMultiPassThreadedReader& reader, std::istream& in)
{
  uint32_t position, n;
  in >> position >> n;
  std::vector<uint32_t> indices(n);
  for (auto& i : indices) {
    in >> i;
  }
  for (auto& b : reader.loadFrames(position, indices)) {
    std::printf("B %u %u %u %u %d\n", b.header.imageNumbers.at(0),
                b.header.frameNumber, crc(b.data.get(), 576 * 576 * 2),
                b.header.imagesInBlock, int(b.header.complete.at(0)));
  }
}

template <typename Reader>
int run(Reader& reader, std::istream& in)
{
  std::string op;
  while (in >> op) {
    std::printf("OP %s\n", op.c_str());
    std::fflush(stdout);
    try {
      if (op == "all") {
        size_t n;
        long t;
        bool again;
        in >> n >> t >> again;
        readAll(reader, n, t, again);
      } else if (op == "count") {
        count(reader, in);
      } else if (op == "load") {
        load(reader, in);
      } else if (op == "reset") {
        reader.reset();
      } else {
        return 3;
      }
      std::printf("OK\n");
    } catch (std::exception& e) {
      std::printf("X %s\n", e.what());
    }
    std::fflush(stdout);
  }
  return 0;
}

int main(int argc, char** argv)
{
  for (uint32_t i = 0; i < 256; ++i) {
    uint32_t c = i;
    for (int k = 0; k < 8; ++k) {
      c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
    }
    table[i] = c;
  }
  std::ifstream in(argv[1]);
  std::string kind;
  int version, threads;
  size_t n;
  in >> kind >> version >> threads >> n;
  std::vector<std::string> files(n);
  for (auto& f : files) {
    in >> f;
  }
  int rc = 3;
  if (kind == "thread") {
    SectorStreamThreadedReader reader(files, version, threads);
    rc = run(reader, in);
  } else if (kind == "multi-pass") {
    SectorStreamMultiPassThreadedReader reader(files, threads);
    rc = run(reader, in);
  }
  std::printf("END\n");
  std::fflush(stdout);
  return rc;
}
