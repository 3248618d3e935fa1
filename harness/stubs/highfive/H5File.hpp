// In-memory stand-in for BlueBrain/HighFive + HDF5 (neither is installed here).
// It keeps the semantics PiCoPiC depends on:
//  * File(): H5F_ACC_EXCL/TRUNC force creation; EXCL fails when the file exists;
//    without EXCL/TRUNC the file is opened, and must exist unless Create is given.
//  * createGroup / createDataSet throw when the object already exists.
//  * every access through a File that has been closed is recorded as a fault.
// File objects are never returned to the allocator, so a dangling File* can never
// alias a newly opened file.
#ifndef VP_HIGHFIVE_H5FILE_HPP
#define VP_HIGHFIVE_H5FILE_HPP
#include <array>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef unsigned long long hsize_t;
typedef int64_t hid_t;
typedef int herr_t;
#define H5E_DEFAULT (hid_t)0
#define H5P_DEFAULT (hid_t)0
typedef herr_t (*H5E_auto2_t)(hid_t, void *);
inline herr_t H5Eset_auto(hid_t, H5E_auto2_t, void *) { return 0; }
inline herr_t H5Eset_auto2(hid_t, H5E_auto2_t, void *) { return 0; }
#ifndef H5F_ACC_RDWR
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5F_ACC_CREAT 16u
#endif

namespace vp { namespace h5 {
struct Dset { std::vector<size_t> dims, maxdims; std::vector<double> data; std::vector<int> writes; };
struct Store {  // contents of one file path
  std::map<std::string, Dset> dsets;
  std::set<std::string> groups;
  std::map<std::string, std::string> attrs;
};
extern std::map<std::string, std::shared_ptr<Store>> &stores();
extern std::set<const void *> &live();       // live File objects
void event(const std::string &json);         // append one event (JSON object body)
extern bool (*fail_hook)(const char *op);     // true: the operation fails (disk full, file gone ...)
inline bool fails(const char *op) { return fail_hook && fail_hook(op); }
void fault(const std::string &what);         // record misuse of a closed file
std::string jstr(const std::string &s);
std::string jvec(const std::vector<size_t> &v);
bool disk_exists(const std::string &path);
bool disk_create_excl(const std::string &path);
void disk_close(const std::string &path, const Store &s);
bool disk_load(const std::string &path, Store &s);
extern bool use_disk;                        // mirror files on disk (process-level runs)
}}

namespace HighFive {
class Exception : public std::exception {
public:
  Exception(const std::string &m) : m_(m) {}
  virtual ~Exception() throw() {}
  const char *what() const throw() override { return m_.c_str(); }
  virtual void setErrorMsg(const std::string &m) { m_ = m; }
protected:
  std::string m_;
};
#define VP_HFE(N) class N : public Exception { public: N(const std::string &m) : Exception(m) {} };
VP_HFE(ObjectException) VP_HFE(DataTypeException) VP_HFE(FileException) VP_HFE(DataSpaceException)
VP_HFE(AttributeException) VP_HFE(DataSetException) VP_HFE(GroupException) VP_HFE(PropertyException)
VP_HFE(ReferenceException)
#undef VP_HFE

class DataSpace {
public:
  static const size_t UNLIMITED = SIZE_MAX;
  enum DataspaceType { datascape_scalar, dataspace_null };
  DataSpace() {}
  explicit DataSpace(DataspaceType) {}
  explicit DataSpace(const std::vector<size_t> &d) : dims(d), maxdims(d) {}
  DataSpace(const std::vector<size_t> &d, const std::vector<size_t> &m) : dims(d), maxdims(m) {}
  template <typename T> static DataSpace From(const T &) { return DataSpace(); }
  std::vector<size_t> getDimensions() const { return dims; }
  std::vector<size_t> getMaxDimensions() const { return maxdims; }
  std::vector<size_t> dims, maxdims;
};
class DataType { public: virtual ~DataType() {} };
template <typename T> class AtomicType : public DataType {};
template <typename T> inline DataType create_datatype() { return DataType(); }
class Chunking { public:
  explicit Chunking(const std::vector<hsize_t> &d) : dims(d) {}
  Chunking(std::initializer_list<hsize_t> d) : dims(d) {}
  std::vector<hsize_t> dims; };
class Deflate { public: explicit Deflate(unsigned) {} };
class Shuffle { };
class DataSetCreateProps { public: template <typename P> void add(const P &) {} static DataSetCreateProps Default() { return {}; } };
class DataSetAccessProps { public: template <typename P> void add(const P &) {} static DataSetAccessProps Default() { return {}; } };
class GroupCreateProps { public: template <typename P> void add(const P &) {} };
class FileDriver { };
class FileAccessProps { public: static FileAccessProps Default() { return {}; } };
class MPIOFileDriver : public FileDriver { public: template <typename C, typename I> MPIOFileDriver(const C &, const I &) {} };

class File;
namespace vp_detail {
inline void flat(const double &v, std::vector<double> &o) { o.push_back(v); }
template <typename T> void flat(const std::vector<T> &v, std::vector<double> &o) { for (auto &e : v) flat(e, o); }
inline void shp(const double &, std::vector<size_t> &) {}
template <typename T> void shp(const std::vector<T> &v, std::vector<size_t> &s) {
  s.push_back(v.size()); if (!v.empty()) shp(v[0], s); }
inline std::string asstr(const std::string &s) { return s; }
inline std::string asstr(bool b) { return b ? "true" : "false"; }
template <typename T> std::string asstr(const T &v) { std::ostringstream o; o << v; return o.str(); }
inline std::string norm(std::string p) { size_t i = 0; while (i < p.size() && p[i] == '/') ++i; return p.substr(i); }
}
class Attribute {
public:
  Attribute() {}
  Attribute(std::shared_ptr<vp::h5::Store> s, const std::string &n) : s_(s), n_(n) {}
  template <typename T> void write(const T &v) { if (vp::h5::fails("attr")) throw AttributeException("Unable to write to attribute"); s_->attrs[n_] = vp_detail::asstr(v);
    vp::h5::event("\"e\":\"attr\",\"name\":" + vp::h5::jstr(n_) + ",\"value\":" + vp::h5::jstr(s_->attrs[n_])); }
  std::shared_ptr<vp::h5::Store> s_; std::string n_;
};
class Selection {
public:
  std::shared_ptr<vp::h5::Store> s_; std::string p_; std::vector<size_t> off_, cnt_;
  template <typename T> void write(const T &v) {
    if (vp::h5::fails("write")) throw DataSetException("Error during HDF5 Write: ");
    auto it = s_->dsets.find(p_);
    if (it == s_->dsets.end()) throw DataSetException("no dataset " + p_);
    vp::h5::Dset &d = it->second;
    std::vector<double> f; vp_detail::flat(v, f);
    size_t n = 1; for (auto c : cnt_) n *= c;
    if (off_.size() != d.dims.size() || cnt_.size() != d.dims.size()) throw DataSpaceException("rank mismatch in selection of " + p_);
    if (f.size() != n) throw DataSpaceException("Impossible to write buffer: size mismatch in " + p_);
    for (size_t i = 0; i < off_.size(); ++i)
      if (cnt_[i] && off_[i] + cnt_[i] > d.dims[i]) throw DataSetException("Error during HDF5 Write: selection out of extent of " + p_);
    std::vector<size_t> ix(off_.size(), 0);
    for (size_t k = 0; k < n; ++k) {
      size_t lin = 0;
      for (size_t i = 0; i < off_.size(); ++i) lin = lin * d.dims[i] + off_[i] + ix[i];
      d.data[lin] = f[k]; d.writes[lin]++;
      for (size_t i = off_.size(); i-- > 0;) { if (++ix[i] < cnt_[i]) break; ix[i] = 0; }
    }
    vp::h5::event("\"e\":\"write\",\"path\":" + vp::h5::jstr(p_) + ",\"off\":" + vp::h5::jvec(off_) + ",\"cnt\":" + vp::h5::jvec(cnt_));
  }
};
class DataSet {
public:
  DataSet() {}
  DataSet(std::shared_ptr<vp::h5::Store> s, const std::string &p) : s_(s), p_(p) {}
  std::vector<size_t> getDimensions() const { return s_->dsets.at(p_).dims; }
  DataSpace getSpace() const { return DataSpace(s_->dsets.at(p_).dims, s_->dsets.at(p_).maxdims); }
  void resize(const std::vector<size_t> &nd) {
    if (vp::h5::fails("resize")) throw DataSetException("Could not resize dataset.");
    vp::h5::Dset &d = s_->dsets.at(p_);
    if (nd.size() != d.dims.size()) throw DataSetException("Invalid dataspace dimensions in resize of " + p_);
    size_t n = 1; for (size_t i = 0; i < nd.size(); ++i) { if (d.maxdims[i] != DataSpace::UNLIMITED && nd[i] > d.maxdims[i]) throw DataSetException("Could not resize dataset " + p_); n *= nd[i]; }
    std::vector<double> nv(n, 0.); std::vector<int> nw(n, 0);
    std::vector<size_t> ix(nd.size(), 0);
    for (size_t k = 0; k < n; ++k) {
      bool in = true; size_t lin = 0;
      for (size_t i = 0; i < nd.size(); ++i) { if (ix[i] >= d.dims[i]) in = false; lin = lin * d.dims[i] + ix[i]; }
      if (in) { nv[k] = d.data[lin]; nw[k] = d.writes[lin]; }
      for (size_t i = nd.size(); i-- > 0;) { if (++ix[i] < nd[i]) break; ix[i] = 0; }
    }
    d.dims = nd; d.data.swap(nv); d.writes.swap(nw);
    vp::h5::event("\"e\":\"resize\",\"path\":" + vp::h5::jstr(p_) + ",\"dims\":" + vp::h5::jvec(nd));
  }
  Selection select(const std::vector<size_t> &off, const std::vector<size_t> &cnt, const std::vector<size_t> & = {}) const {
    Selection s; s.s_ = s_; s.p_ = p_; s.off_ = off; s.cnt_ = cnt; return s; }
  template <typename T> void write(const T &v) { std::vector<size_t> z(s_->dsets.at(p_).dims.size(), 0); select(z, s_->dsets.at(p_).dims).write(v); }
  std::shared_ptr<vp::h5::Store> s_; std::string p_;
};

template <typename D> class NodeTraits {
public:
  bool exist(const std::string &name) const { self().check("exist", name); std::string p = full(name);
    return store()->dsets.count(p) || store()->groups.count(p) || p.empty(); }
  DataSet getDataSet(const std::string &name) const {
    self().check("getDataSet", name); std::string p = full(name);
    if (vp::h5::fails("getDataSet")) throw DataSetException("Unable to open or create the object \"" + name + "\"");
    if (!store()->dsets.count(p)) throw DataSetException("Unable to open the dataset \"" + name + "\"");
    return DataSet(store(), p);
  }
  template <typename P = DataSetCreateProps>
  DataSet createDataSet(const std::string &name, const DataSpace &sp, const DataType &, const P & = P()) {
    self().check("createDataSet", name); std::string p = full(name);
    if (vp::h5::fails("createDataSet")) throw DataSetException("Unable to open or create the object \"" + name + "\"");
    if (store()->dsets.count(p) || store()->groups.count(p)) throw DataSetException("Unable to create the dataset \"" + name + "\"");
    vp::h5::Dset d; d.dims = sp.dims; d.maxdims = sp.maxdims; size_t n = 1; for (auto x : d.dims) n *= x;
    d.data.assign(n, 0.); d.writes.assign(n, 0); store()->dsets[p] = d;
    vp::h5::event("\"e\":\"create\",\"path\":" + vp::h5::jstr(p) + ",\"dims\":" + vp::h5::jvec(sp.dims));
    return DataSet(store(), p);
  }
  template <typename T, typename P = DataSetCreateProps>
  DataSet createDataSet(const std::string &name, const DataSpace &sp, const P &pr = P()) { return createDataSet(name, sp, AtomicType<T>(), pr); }
  struct Group_; 
  template <typename T> Attribute createAttribute(const std::string &name, const DataSpace &) {
    self().check("createAttribute", name);
    if (vp::h5::fails("createAttribute")) throw AttributeException("Unable to create the attribute");
    if (store()->attrs.count(name)) throw AttributeException("Unable to create the attribute \"" + name + "\"");
    store()->attrs[name] = ""; return Attribute(store(), name);
  }
  bool hasAttribute(const std::string &n) const { self().check("hasAttribute", n); return store()->attrs.count(n) != 0; }
  Attribute getAttribute(const std::string &n) const { self().check("getAttribute", n);
    if (!store()->attrs.count(n)) throw AttributeException("Unable to open the attribute \"" + n + "\""); return Attribute(store(), n); }
protected:
  const D &self() const { return static_cast<const D &>(*this); }
  std::shared_ptr<vp::h5::Store> store() const { return self().store_(); }
  std::string full(const std::string &n) const {
    if (!n.empty() && n[0] == '/') return vp_detail::norm(n);
    return self().prefix_().empty() ? vp_detail::norm(n) : self().prefix_() + "/" + n; }
};
class Group : public NodeTraits<Group> {
public:
  Group() {}
  Group(std::shared_ptr<vp::h5::Store> s, const std::string &p, const void *f) : s_(s), p_(p), f_(f) {}
  void check(const char *op, const std::string &name) const {
    if (!vp::h5::live().count(f_)) { vp::h5::fault(std::string("group:") + op + ":" + name); throw GroupException("closed file"); } }
  std::shared_ptr<vp::h5::Store> store_() const { return s_; }
  std::string prefix_() const { return p_; }
  Group createGroup(const std::string &name, bool = true);
  Group getGroup(const std::string &name) const;
  std::shared_ptr<vp::h5::Store> s_; std::string p_; const void *f_ = nullptr;
};
class File : public NodeTraits<File> {
public:
  enum : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Debug = 0, Create = 16, Overwrite = Truncate, OpenOrCreate = 17 };
  explicit File(const std::string &name, unsigned flags = ReadOnly, const FileAccessProps & = FileAccessProps()) { open_(name, flags); }
  File(const std::string &name, unsigned flags, const FileDriver &) { open_(name, flags); }
  File(const File &) = delete;
  ~File() {
    if (!vp::h5::live().count(this)) { vp::h5::fault("double close"); return; }
    vp::h5::live().erase(this);
    if (vp::h5::use_disk) vp::h5::disk_close(name_, *s_);
    vp::h5::event("\"e\":\"close\",\"file\":" + vp::h5::jstr(name_));
  }
  static void *operator new(size_t n) { return ::malloc(n); }
  static void operator delete(void *) {}          // never reuse the address
  void flush() { check("flush", ""); }
  const std::string &getName() const { return name_; }
  Group getGroup(const std::string &name) const { check("getGroup", name); std::string p = vp_detail::norm(name);
    if (vp::h5::fails("getGroup")) throw GroupException("Unable to open or create the group");
    if (!p.empty() && !s_->groups.count(p)) throw GroupException("Unable to open the group \"" + name + "\""); return Group(s_, p, this); }
  Group createGroup(const std::string &name, bool = true) { check("createGroup", name); std::string p = vp_detail::norm(name);
    if (vp::h5::fails("createGroup")) throw GroupException("Unable to open or create the group");
    if (p.empty() || s_->groups.count(p) || s_->dsets.count(p)) throw GroupException("Unable to create the group \"" + name + "\"");
    for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/') s_->groups.insert(p.substr(0, i));
    s_->groups.insert(p); return Group(s_, p, this); }
  void check(const char *op, const std::string &name) const {
    if (!vp::h5::live().count(this)) { vp::h5::fault(std::string(op) + ":" + name); throw FileException("Invalid file identifier (file is closed)"); } }
  std::shared_ptr<vp::h5::Store> store_() const { return s_; }
  std::string prefix_() const { return ""; }
private:
  void open_(const std::string &name, unsigned flags) {
    name_ = name;
    bool must_create = flags & (Excl | Truncate), on_disk = vp::h5::use_disk ? vp::h5::disk_exists(name) : vp::h5::stores().count(name) != 0;
    std::string ev = "\"e\":\"open\",\"file\":" + vp::h5::jstr(name) + ",\"flags\":" + std::to_string(flags) + ",\"existed\":" + (on_disk ? "1" : "0");
    bool create = false, ok = true;
    if (must_create) { create = true; if ((flags & Excl) && on_disk) ok = false; }
    else if (!on_disk) { if (flags & Create) create = true; else ok = false; }
    if (vp::h5::fails("open")) ok = false;
    if (!ok) { vp::h5::event(ev + ",\"ok\":0,\"mode\":\"fail\""); throw FileException("Unable to create/open file " + name); }
    auto &st = vp::h5::stores();
    if (create) { if (vp::h5::use_disk && !(flags & Truncate) && !vp::h5::disk_create_excl(name)) { vp::h5::event(ev + ",\"ok\":0,\"mode\":\"fail\""); throw FileException("Unable to create file " + name); }
      if (vp::h5::use_disk && (flags & Truncate)) vp::h5::disk_close(name, vp::h5::Store());
      st[name] = std::make_shared<vp::h5::Store>(); }
    else if (vp::h5::use_disk) { auto s = std::make_shared<vp::h5::Store>(); if (!vp::h5::disk_load(name, *s)) { vp::h5::event(ev + ",\"ok\":0,\"mode\":\"fail\""); throw FileException("not an HDF5 file " + name); } st[name] = s; }
    s_ = st[name];
    vp::h5::live().insert(this);
    vp::h5::event(ev + ",\"ok\":1,\"mode\":\"" + (create ? ((flags & Truncate) ? "trunc" : "create") : "open") + "\"");
  }
  std::string name_; std::shared_ptr<vp::h5::Store> s_;
};
inline Group Group::createGroup(const std::string &name, bool) { check("createGroup", name); std::string p = full(name);
  if (s_->groups.count(p)) throw GroupException("Unable to create the group \"" + name + "\"");
  for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/') s_->groups.insert(p.substr(0, i));
  s_->groups.insert(p); return Group(s_, p, f_); }
inline Group Group::getGroup(const std::string &name) const { check("getGroup", name); std::string p = full(name);
  if (!p.empty() && !s_->groups.count(p)) throw GroupException("Unable to open the group \"" + name + "\""); return Group(s_, p, f_); }
}
#endif
