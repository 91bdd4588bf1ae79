// Shared by the demonstrations: buffers over plain memory and a few helpers.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <vector>
#include "WireFormatter.h"
#include "Fields.h"
#include "MessageInterface.h"
#include "ReadBufferFixedSize.h"
#include "ReadBufferSection.h"
#include "WriteBufferFixedSize.h"
#include "MessageSizeCalculator.h"
#include "d.h"
namespace EP = ::EmbeddedProto;
typedef std::vector<uint8_t> Bytes;
struct Out : EP::WriteBufferInterface {
  uint32_t cap; Bytes data; std::function<bool()> refuse;
  explicit Out(uint32_t c = 1000000) : cap(c) { data.reserve(1000); }
  void clear() override { data.clear(); }
  uint32_t get_size() const override { return static_cast<uint32_t>(data.size()); }
  uint32_t get_max_size() const override { return cap; }
  uint32_t get_available_size() const override { return cap - get_size(); }
  bool push(const uint8_t b) override { if(refuse && refuse()) return false; if(data.size() >= cap) return false; data.push_back(b); return true; }
  bool push(const uint8_t* b, const uint32_t n) override { if(refuse && refuse()) return false; if(cap - data.size() < n) return false; data.insert(data.end(), b, b + n); return true; }
};
struct In : EP::ReadBufferInterface {
  Bytes data; size_t pos = 0; uint64_t calls = 0; std::function<bool()> refuse;
  explicit In(const Bytes& b) : data(b) {}
  uint32_t get_size() const override { return static_cast<uint32_t>(data.size() - pos); }
  uint32_t get_max_size() const override { return static_cast<uint32_t>(data.size()); }
  bool peek(uint8_t& b) const override { if(pos >= data.size()) return false; b = data[pos]; return true; }
  bool advance() override { ++calls; if(pos >= data.size()) return false; ++pos; return true; }
  bool advance(const uint32_t n) override { ++calls; if(n > get_size()) return false; pos += n; return true; }
  bool pop(uint8_t& b) override { if(++calls > 50000000) { printf("no end\n"); exit(1); } if(refuse && refuse()) return false; if(pos >= data.size()) return false; b = data[pos++]; return true; }
};
template<class M> Bytes bytes_of(const M& m) { Out o; if(EP::Error::NO_ERRORS != m.serialize(o)) { printf("not serialised\n"); exit(1); } return o.data; }
template<class M> EP::Error parse(M& m, const Bytes& b) { In i(b); return m.deserialize(i); }
static const EP::Error OK = EP::Error::NO_ERRORS;
#define CHECK(c) do { if(!(c)) { printf("line %d: not true: %s\n", __LINE__, #c); return 1; } } while(0)
