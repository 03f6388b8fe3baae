// Executes a program of operations on h5::H5ReadWrite objects, read from
// standard input, and reports every result together with the identifiers of
// the HDF5 library that are in use afterwards.  One line per operation:
// "R <fields> # <identifiers> <error handler kept>".
#include <h5cpp/h5readwrite.h>

#include <hdf5.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using h5::H5ReadWrite;
using std::string;
using std::vector;
using DataType = H5ReadWrite::DataType;

static std::ostringstream out;

static string unhex(const string& s)
{
  string r;
  if (s == "-")
    return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r.push_back((char)std::strtol(s.substr(i, 2).c_str(), nullptr, 16));
  return r;
}

static string hex(const void* p, size_t n)
{
  static const char* d = "0123456789abcdef";
  if (n == 0)
    return "-";
  string r(2 * n, '0');
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    r[2 * i] = d[c[i] >> 4];
    r[2 * i + 1] = d[c[i] & 15];
  }
  return r;
}

static string hex(const string& s)
{
  return hex(s.data(), s.size());
}

template <typename T>
static vector<T> list(const string& s)
{
  vector<T> r;
  if (s == "-")
    return r;
  std::istringstream in(s);
  string item;
  while (std::getline(in, item, ','))
    r.push_back((T)std::strtoll(item.c_str(), nullptr, 10));
  return r;
}

struct Args
{
  std::istringstream in;
  string word()
  {
    string s;
    in >> s;
    return s;
  }
  string str() { return unhex(word()); }
};

template <typename T>
static vector<T> values(const string& raw)
{
  vector<T> v(raw.size() / sizeof(T));
  if (!v.empty())
    std::memcpy(v.data(), raw.data(), v.size() * sizeof(T));
  return v;
}

// A buffer of exactly that many bytes (what lies outside is poisoned)
struct Exact
{
  char* p;
  explicit Exact(size_t n) : p(static_cast<char*>(std::malloc(n ? n : 1)))
  {
    std::memset(p, 0xA5, n);
  }
  ~Exact() { std::free(p); }
};

template <typename T>
static void typed(const string& op, H5ReadWrite& f, Args& a)
{
  if (op == "attr") {
    string path = a.str(), name = a.str();
    bool ok = false;
    T v = f.attribute<T>(path, name, &ok);
    out << ok << ' ' << (ok ? hex(&v, sizeof(v)) : "-");
  } else if (op == "attr-") {
    // without asking whether it worked
    string path = a.str(), name = a.str();
    T v = f.attribute<T>(path, name);
    out << hex(&v, sizeof(v));
  } else if (op == "read1") {
    auto v = f.readData<T>(a.str());
    out << hex(v.data(), v.size() * sizeof(T));
  } else if (op == "readn") {
    vector<int> dims{ 7, 7 };
    auto v = f.readData<T>(a.str(), dims);
    out << dims.size();
    for (int d : dims)
      out << ' ' << d;
    out << ' ' << hex(v.data(), v.size() * sizeof(T));
  } else if (op == "readp") {
    string path = a.str();
    size_t n = std::strtoull(a.word().c_str(), nullptr, 10);
    Exact b(n * sizeof(T));
    bool ok = f.readData(path, reinterpret_cast<T*>(b.p));
    out << ok << ' ' << (ok ? hex(b.p, n * sizeof(T)) : "-");
  } else if (op == "writev") {
    string path = a.str(), name = a.str();
    auto dims = list<int>(a.word());
    out << f.writeData(path, name, dims, values<T>(a.str()));
  } else if (op == "writep") {
    string path = a.str(), name = a.str();
    auto dims = list<int>(a.word());
    string raw = a.str();
    Exact b(raw.size());
    std::memcpy(b.p, raw.data(), raw.size());
    out << f.writeData(path, name, dims, reinterpret_cast<const T*>(b.p));
  } else if (op == "setattr") {
    string path = a.str(), name = a.str();
    auto v = values<T>(a.str());
    out << f.setAttribute(path, name, v.at(0));
  } else if (op == "setattrv") {
    string path = a.str(), name = a.str();
    out << f.setAttribute(path, name, values<T>(a.str()));
  } else {
    std::abort();
  }
}

static void byType(int t, const string& op, H5ReadWrite& f, Args& a)
{
  switch (t) {
    case 0: return typed<char>(op, f, a);
    case 1: return typed<short>(op, f, a);
    case 2: return typed<int>(op, f, a);
    case 3: return typed<long long>(op, f, a);
    case 4: return typed<unsigned char>(op, f, a);
    case 5: return typed<unsigned short>(op, f, a);
    case 6: return typed<unsigned int>(op, f, a);
    case 7: return typed<unsigned long long>(op, f, a);
    case 8: return typed<float>(op, f, a);
    case 9: return typed<double>(op, f, a);
  }
  std::abort();
}

static int reported = 0;
static herr_t handler(hid_t, void*)
{
  ++reported;
  return 0;
}

static int client = 0;

// Identifiers of transient objects are handed out in order: the ones between
// the first and the one that would be next and that are still valid are in use.
struct Kind
{
  hid_t (*make)();
  herr_t (*close)(hid_t);
  hid_t first;
  int inUse()
  {
    hid_t next = make();
    close(next);
    if (first == 0)
      first = next;
    int n = 0;
    for (hid_t i = first; i < next; ++i)
      n += H5Iis_valid(i) > 0;
    return n;
  }
};

static Kind kinds[] = {
  { [] { return H5Tcopy(H5T_NATIVE_INT); }, H5Tclose, 0 },
  { [] { return H5Screate(H5S_SCALAR); }, H5Sclose, 0 },
  { [] { return H5Pcreate(H5P_DATASET_CREATE); }, H5Pclose, 0 },
};

static string state()
{
  std::ostringstream s;
  for (auto& k : kinds)
    s << k.inUse() << ' ';
  for (unsigned t : { H5F_OBJ_FILE, H5F_OBJ_DATASET, H5F_OBJ_GROUP,
                      H5F_OBJ_DATATYPE, H5F_OBJ_ATTR })
    s << (long long)H5Fget_obj_count(H5F_OBJ_ALL, t) << ' ';
  H5E_auto2_t f = nullptr;
  void* d = nullptr;
  H5Eget_auto2(H5E_DEFAULT, &f, &d);
  s << (f == handler && d == &client);
  return s.str();
}

static bool opt(Args& a, vector<size_t>& v)
{
  string w = a.word();
  v = list<size_t>(w);
  return w != "-";
}

int main(int argc, char** argv)
{
  H5open();
  H5Eset_auto2(H5E_DEFAULT, handler, &client);
  state();
  std::map<int, std::unique_ptr<H5ReadWrite>> files;
  string line;
  while (std::getline(std::cin, line)) {
    Args a;
    a.in.str(line);
    string op = a.word();
    out.str("");
    int k = std::atoi(a.word().c_str());
    if (op == "open") {
      string mode = a.word(), path = a.str();
      files[k].reset(); // close first: the file may be the same one
      if (mode == "R")
        files[k].reset(new H5ReadWrite(path));
      else if (mode == "r")
        files[k].reset(new H5ReadWrite(path, H5ReadWrite::OpenMode::ReadOnly));
      else
        files[k].reset(
          new H5ReadWrite(path, H5ReadWrite::OpenMode::WriteOnly));
    } else if (op == "drop") {
      files[k].reset();
    } else if (op == "close") {
      files[k]->close();
    } else if (op == "children") {
      string path = a.str();
      bool ok = false;
      auto v = files[k]->children(path, &ok);
      auto w = files[k]->children(path);
      out << ok << ' ' << (v == w);
      for (auto& s : v)
        out << ' ' << hex(s);
    } else if (op == "alldata") {
      string path = a.str();
      auto v = files[k]->allDataSets(path);
      out << v.size();
      for (auto& s : v)
        out << ' ' << hex(s);
    } else if (op == "alldefault") {
      auto v = files[k]->allDataSets();
      out << v.size();
      for (auto& s : v)
        out << ' ' << hex(s);
    } else if (op == "hasany") {
      out << files[k]->hasAttribute(a.str());
    } else if (op == "hasattr") {
      string path = a.str(), name = a.str();
      out << files[k]->hasAttribute(path, name);
    } else if (op == "attrtype") {
      string path = a.str(), name = a.str();
      out << H5ReadWrite::dataTypeToString(files[k]->attributeType(path, name));
    } else if (op == "attrs") {
      string path = a.str(), name = a.str();
      bool ok = false;
      string v = files[k]->attribute<string>(path, name, &ok);
      string w = files[k]->attribute<string>(path, name);
      out << ok << ' ' << (v == w) << ' ' << hex(v);
    } else if (op == "isdata") {
      out << files[k]->isDataSet(a.str());
    } else if (op == "isgroup") {
      out << files[k]->isGroup(a.str());
    } else if (op == "dtype") {
      out << H5ReadWrite::dataTypeToString(files[k]->dataType(a.str()));
    } else if (op == "ndim") {
      out << files[k]->dimensionCount(a.str());
    } else if (op == "dims") {
      auto v = files[k]->getDimensions(a.str());
      out << v.size();
      for (int d : v)
        out << ' ' << d;
    } else if (op == "readh") {
      int t = std::atoi(a.word().c_str());
      string path = a.str();
      size_t bytes = std::strtoull(a.word().c_str(), nullptr, 10);
      vector<size_t> strides, start, counts;
      bool hs = opt(a, strides), ha = opt(a, start), hc = opt(a, counts);
      vector<int> istrides(strides.begin(), strides.end());
      Exact b(bytes);
      bool ok = files[k]->readData(path, (DataType)t, b.p,
                                   hs ? istrides.data() : nullptr,
                                   ha ? start.data() : nullptr,
                                   hc ? counts.data() : nullptr);
      out << ok << ' ' << (ok ? hex(b.p, bytes) : "-");
    } else if (op == "writed") {
      int t = std::atoi(a.word().c_str());
      string path = a.str(), name = a.str();
      auto dims = list<int>(a.word());
      string raw = a.str();
      Exact b(raw.size());
      std::memcpy(b.p, raw.data(), raw.size());
      out << files[k]->writeData(path, name, dims, (DataType)t,
                                 static_cast<const void*>(b.p));
    } else if (op == "create") {
      int t = std::atoi(a.word().c_str());
      string path = a.str(), name = a.str();
      auto dims = list<int>(a.word());
      string c = a.word();
      if (c == "default")
        out << files[k]->createDataSet(path, name, dims, (DataType)t);
      else
        out << files[k]->createDataSet(path, name, dims, (DataType)t,
                                       list<int>(c));
    } else if (op == "update") {
      int t = std::atoi(a.word().c_str());
      string path = a.str();
      auto dims = list<int>(a.word());
      string raw = a.str();
      vector<size_t> start, counts;
      bool ha = opt(a, start), hc = opt(a, counts);
      Exact b(raw.size());
      std::memcpy(b.p, raw.data(), raw.size());
      out << files[k]->updateData(path, dims, (DataType)t, b.p,
                                  ha ? start.data() : nullptr,
                                  hc ? counts.data() : nullptr);
    } else if (op == "setattrc") {
      string path = a.str(), name = a.str(), v = a.str();
      out << files[k]->setAttribute<const char*>(path, name, v.c_str());
    } else if (op == "group") {
      out << files[k]->createGroup(a.str());
    } else if (op == "names") {
      for (int t = -1; t <= 10; ++t)
        out << H5ReadWrite::dataTypeToString((DataType)t) << ' ';
    } else {
      // operations on values of a type: "<op>:<type>"
      auto c = op.find(':');
      if (c == string::npos)
        std::abort();
      byType(std::atoi(op.c_str() + c + 1), op.substr(0, c), *files[k], a);
    }
    std::cout << "R " << out.str() << " # " << state() << std::endl;
  }
  files.clear();
  std::cout << "R end # " << state() << std::endl;
  return 0;
}
