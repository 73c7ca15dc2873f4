// Runs a script of H5ReadWrite operations (C23). Reads the script from stdin,
// one operation per line; writes one line of results per operation.
// Strings and data are in hex; "." is empty.
#include "h5cpp/h5readwrite.h"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <hdf5.h>
#include <iostream>
#include <memory>
#include <sstream>

using h5::H5ReadWrite;
using DataType = H5ReadWrite::DataType;
using std::string;
using std::vector;

static const char* digits = "0123456789abcdef";

static string hex(const void* p, size_t n)
{
  string s;
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    s += digits[c[i] >> 4];
    s += digits[c[i] & 15];
  }
  return n ? s : ".";
}

static string hex(const string& s)
{
  return hex(s.data(), s.size());
}

struct In
{
  std::istringstream s;
  string word()
  {
    string w;
    if (!(s >> w)) {
      std::cout << "BAD SCRIPT" << std::endl;
      exit(99);
    }
    return w;
  }
  string bytes()
  {
    string w = word(), r;
    if (w == ".")
      return r;
    for (size_t i = 0; i + 1 < w.size(); i += 2)
      r += static_cast<char>(strtol(w.substr(i, 2).c_str(), nullptr, 16));
    return r;
  }
  long long number() { return strtoll(word().c_str(), nullptr, 10); }
  template <typename T>
  vector<T> numbers()
  {
    vector<T> r;
    auto n = number();
    for (long long i = 0; i < n; ++i)
      r.push_back(static_cast<T>(number()));
    return r;
  }
};

static DataType type(const string& s)
{
  for (int i = 0; i <= static_cast<int>(DataType::String); ++i) {
    if (H5ReadWrite::dataTypeToString(static_cast<DataType>(i)) == s)
      return static_cast<DataType>(i);
  }
  return DataType::None;
}

// An exact copy on the heap, so that the sanitizer sees any access beyond it
template <typename T>
struct Buffer
{
  size_t n;
  std::unique_ptr<T[]> p;
  explicit Buffer(size_t size) : n(size), p(new T[size ? size : 1]) {}
  explicit Buffer(const string& bytes)
    : n(bytes.size() / sizeof(T)), p(new T[n ? n : 1])
  {
    memcpy(p.get(), bytes.data(), n * sizeof(T));
  }
};

static std::ostream& out = std::cout;

template <typename T>
void writeTyped(H5ReadWrite& f, In& in, const string& mode)
{
  auto path = in.bytes(), name = in.bytes();
  auto dims = in.numbers<int>();
  Buffer<T> b(in.bytes());
  bool ok;
  if (mode == "vector")
    ok = f.writeData(path, name, dims, vector<T>(b.p.get(), b.p.get() + b.n));
  else
    ok = f.writeData(path, name, dims, static_cast<const T*>(b.p.get()));
  out << ok;
}

template <typename T>
void attrTyped(H5ReadWrite& f, In& in, const string& mode)
{
  auto path = in.bytes(), name = in.bytes();
  Buffer<T> b(in.bytes());
  if (mode == "vector")
    out << f.setAttribute(path, name, vector<T>(b.p.get(), b.p.get() + b.n));
  else
    out << f.setAttribute(path, name, b.p[0]);
}

template <typename T>
void readTyped(H5ReadWrite& f, In& in, const string& mode)
{
  auto path = in.bytes();
  if (mode == "one") {
    auto v = f.readData<T>(path);
    out << hex(v.data(), v.size() * sizeof(T));
  } else if (mode == "nd") {
    vector<int> dims = { 77 };
    auto v = f.readData<T>(path, dims);
    out << dims.size();
    for (auto d : dims)
      out << " " << d;
    out << " " << hex(v.data(), v.size() * sizeof(T));
  } else {
    auto n = in.number();
    Buffer<T> b(n);
    memset(b.p.get(), 0xa5, n * sizeof(T));
    bool ok = f.readData(path, b.p.get());
    out << ok << " " << hex(b.p.get(), ok ? n * sizeof(T) : 0);
  }
}

template <typename T>
void getTyped(H5ReadWrite& f, In& in, const string&)
{
  auto path = in.bytes(), name = in.bytes();
  bool ok = true;
  bool without = in.number();
  if (without) {
    f.attribute<T>(path, name);
    out << "-";
    return;
  }
  T v = f.attribute<T>(path, name, &ok);
  out << ok << " " << hex(&v, ok ? sizeof(T) : 0);
}

#define TYPED(function)                                                        \
  do {                                                                         \
    if (t == "Int8")                                                           \
      function<char>(*f, in, mode);                                            \
    else if (t == "Int16")                                                     \
      function<short>(*f, in, mode);                                           \
    else if (t == "Int32")                                                     \
      function<int>(*f, in, mode);                                             \
    else if (t == "Int64")                                                     \
      function<long long>(*f, in, mode);                                       \
    else if (t == "UInt8")                                                     \
      function<unsigned char>(*f, in, mode);                                   \
    else if (t == "UInt16")                                                    \
      function<unsigned short>(*f, in, mode);                                  \
    else if (t == "UInt32")                                                    \
      function<unsigned int>(*f, in, mode);                                    \
    else if (t == "UInt64")                                                    \
      function<unsigned long long>(*f, in, mode);                              \
    else if (t == "Float")                                                     \
      function<float>(*f, in, mode);                                           \
    else if (t == "Double")                                                    \
      function<double>(*f, in, mode);                                          \
    else                                                                       \
      exit(98);                                                                \
  } while (0)

static size_t sizeOf(const string& t)
{
  if (t == "Int8" || t == "UInt8")
    return 1;
  if (t == "Int16" || t == "UInt16")
    return 2;
  if (t == "Int32" || t == "UInt32" || t == "Float")
    return 4;
  return 8;
}

static string openIds()
{
  std::ostringstream s;
  for (unsigned k : { H5F_OBJ_FILE, H5F_OBJ_DATASET, H5F_OBJ_GROUP,
                      H5F_OBJ_DATATYPE, H5F_OBJ_ATTR })
    s << " " << H5Fget_obj_count(H5F_OBJ_ALL, k);
  return s.str();
}

int main()
{
  H5open();
  std::unique_ptr<H5ReadWrite> f;
  string line, atStart = openIds();
  while (std::getline(std::cin, line)) {
    In in;
    in.s.str(line);
    auto op = in.word();
    if (op == "open") {
      auto mode = in.word();
      f.reset();
      f.reset(new H5ReadWrite(in.bytes(), mode == "W"
                                            ? H5ReadWrite::OpenMode::WriteOnly
                                            : H5ReadWrite::OpenMode::ReadOnly));
    } else if (op == "close") {
      f->close();
    } else if (op == "destroy") {
      f.reset();
      auto now = openIds();
      out << (now == atStart) << now << " /" << atStart;
    } else if (op == "group") {
      out << f->createGroup(in.bytes());
    } else if (op == "write") {
      auto mode = in.word(), t = in.word();
      if (mode == "type") {
        auto path = in.bytes(), name = in.bytes();
        auto dims = in.numbers<int>();
        Buffer<char> b(in.bytes());
        out << f->writeData(path, name, dims, type(t), b.p.get());
      } else {
        TYPED(writeTyped);
      }
    } else if (op == "create") {
      auto t = in.word();
      auto path = in.bytes(), name = in.bytes();
      auto dims = in.numbers<int>();
      auto chunk = in.numbers<int>();
      if (chunk.empty() && dims.size() % 2)
        out << f->createDataSet(path, name, dims, type(t));
      else
        out << f->createDataSet(path, name, dims, type(t), chunk);
    } else if (op == "update") {
      auto t = in.word();
      auto path = in.bytes();
      auto dims = in.numbers<int>();
      auto start = in.numbers<size_t>();
      auto counts = in.numbers<size_t>();
      Buffer<char> b(in.bytes());
      out << f->updateData(path, dims, type(t), b.p.get(),
                           start.empty() ? nullptr : start.data(),
                           counts.empty() ? nullptr : counts.data());
    } else if (op == "set") {
      auto mode = in.word(), t = in.word();
      if (t == "String") {
        auto path = in.bytes(), name = in.bytes(), value = in.bytes();
        out << f->setAttribute(path, name, value.c_str());
      } else {
        TYPED(attrTyped);
      }
    } else if (op == "read") {
      auto mode = in.word(), t = in.word();
      if (mode == "type") {
        auto path = in.bytes();
        auto n = in.number();
        auto strides = in.numbers<int>();
        auto start = in.numbers<size_t>();
        auto counts = in.numbers<size_t>();
        Buffer<char> b(n * sizeOf(t));
        memset(b.p.get(), 0xa5, b.n);
        bool ok = f->readData(path, type(t), b.p.get(),
                              strides.empty() ? nullptr : strides.data(),
                              start.empty() ? nullptr : start.data(),
                              counts.empty() ? nullptr : counts.data());
        out << ok << " " << hex(b.p.get(), ok ? b.n : 0);
      } else {
        TYPED(readTyped);
      }
    } else if (op == "readsum") {
      // The sum of every element times its index
      in.word();
      vector<int> dims;
      auto v = f->readData<unsigned char>(in.bytes(), dims);
      unsigned long long sum = 0;
      for (size_t i = 0; i < v.size(); ++i)
        sum += v[i] ? i * v[i] : 0;
      out << dims.size();
      for (auto d : dims)
        out << " " << d;
      out << " " << v.size() << " " << sum;
    } else if (op == "get") {
      auto mode = in.word(), t = in.word();
      if (t == "String") {
        auto path = in.bytes(), name = in.bytes();
        bool ok = true;
        auto v = f->attribute<string>(path, name, &ok);
        out << ok << " " << hex(ok ? v : "");
      } else {
        TYPED(getTyped);
      }
    } else if (op == "attrtype") {
      auto path = in.bytes(), name = in.bytes();
      out << H5ReadWrite::dataTypeToString(f->attributeType(path, name));
    } else if (op == "hasattr") {
      auto path = in.bytes(), name = in.bytes();
      out << f->hasAttribute(path, name);
    } else if (op == "hasattrs") {
      out << f->hasAttribute(in.bytes());
    } else if (op == "isdataset") {
      out << f->isDataSet(in.bytes());
    } else if (op == "isgroup") {
      out << f->isGroup(in.bytes());
    } else if (op == "datatype") {
      out << H5ReadWrite::dataTypeToString(f->dataType(in.bytes()));
    } else if (op == "ndims") {
      out << f->dimensionCount(in.bytes());
    } else if (op == "dims") {
      auto v = f->getDimensions(in.bytes());
      out << v.size();
      for (auto d : v)
        out << " " << d;
    } else if (op == "children") {
      bool ok = true;
      auto v = f->children(in.bytes(), &ok);
      out << ok;
      for (auto& s : v)
        out << " " << hex(s);
    } else if (op == "datasets") {
      auto v = f->allDataSets(in.bytes());
      out << v.size();
      for (auto& s : v)
        out << " " << hex(s);
    } else {
      return 97;
    }
    out << "\n";
    out.flush();
  }
  out << "END\n";
  return 0;
}
