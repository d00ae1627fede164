// Stand-in for nmwsharp/happly, whose sources are absent from this (network-less) checkout: /repo/deps/happly is an
// empty directory. It re-implements, from the public interface geometry-central uses, a PLY reader/writer so that
// geometry-central's own I/O code (which is the code under test) can be compiled and run. It is a STUB component: the
// checks never judge it.
#pragma once

#include <algorithm>
#include <array>
#include <climits>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace happly {

enum class DataFormat { ASCII, Binary, BinaryBigEndian };

namespace detail {
enum class T { I8, U8, I16, U16, I32, U32, F32, F64 };
inline size_t sizeOf(T t) {
  switch (t) {
  case T::I8: case T::U8: return 1;
  case T::I16: case T::U16: return 2;
  case T::I32: case T::U32: case T::F32: return 4;
  case T::F64: return 8;
  }
  return 0;
}
inline const char* nameOf(T t) {
  switch (t) {
  case T::I8: return "char";
  case T::U8: return "uchar";
  case T::I16: return "short";
  case T::U16: return "ushort";
  case T::I32: return "int";
  case T::U32: return "uint";
  case T::F32: return "float";
  case T::F64: return "double";
  }
  return "";
}
inline T parseType(const std::string& s) {
  if (s == "char" || s == "int8") return T::I8;
  if (s == "uchar" || s == "uint8") return T::U8;
  if (s == "short" || s == "int16") return T::I16;
  if (s == "ushort" || s == "uint16") return T::U16;
  if (s == "int" || s == "int32") return T::I32;
  if (s == "uint" || s == "uint32") return T::U32;
  if (s == "float" || s == "float32") return T::F32;
  if (s == "double" || s == "float64") return T::F64;
  throw std::runtime_error("PLY parser: unknown type " + s);
}
template <typename X> struct TypeOf;
template <> struct TypeOf<char> { static constexpr T t = T::I8; };
template <> struct TypeOf<int8_t> { static constexpr T t = T::I8; };
template <> struct TypeOf<uint8_t> { static constexpr T t = T::U8; };
template <> struct TypeOf<int16_t> { static constexpr T t = T::I16; };
template <> struct TypeOf<uint16_t> { static constexpr T t = T::U16; };
template <> struct TypeOf<int32_t> { static constexpr T t = T::I32; };
template <> struct TypeOf<uint32_t> { static constexpr T t = T::U32; };
template <> struct TypeOf<float> { static constexpr T t = T::F32; };
template <> struct TypeOf<double> { static constexpr T t = T::F64; };

// values are kept as double (exact for every PLY scalar type)
inline bool isInt(T t) { return t != T::F32 && t != T::F64; }
inline bool isSigned(T t) { return t == T::I8 || t == T::I16 || t == T::I32; }
// is `from` readable as `to`?
inline bool convertible(T from, T to) {
  if (from == to) return true;
  if (to == T::F64) return from == T::F32;
  if (to == T::F32) return false;
  if (!isInt(from)) return false;
  if (isSigned(from) != isSigned(to)) return false;
  return sizeOf(from) <= sizeOf(to);
}

inline double readScalar(std::istream& in, T t, DataFormat f) {
  if (f == DataFormat::ASCII) {
    double d;
    if (!(in >> d)) throw std::runtime_error("PLY parser: unexpected end of ascii data");
    return d;
  }
  unsigned char b[8];
  size_t n = sizeOf(t);
  in.read((char*)b, (std::streamsize)n);
  if ((size_t)in.gcount() != n) throw std::runtime_error("PLY parser: unexpected end of binary data");
  if (f == DataFormat::BinaryBigEndian) std::reverse(b, b + n);
  switch (t) {
  case T::I8: return (double)(int8_t)b[0];
  case T::U8: return (double)b[0];
  case T::I16: { int16_t v; std::memcpy(&v, b, 2); return v; }
  case T::U16: { uint16_t v; std::memcpy(&v, b, 2); return v; }
  case T::I32: { int32_t v; std::memcpy(&v, b, 4); return v; }
  case T::U32: { uint32_t v; std::memcpy(&v, b, 4); return v; }
  case T::F32: { float v; std::memcpy(&v, b, 4); return v; }
  case T::F64: { double v; std::memcpy(&v, b, 8); return v; }
  }
  return 0;
}
inline void writeScalar(std::ostream& out, T t, DataFormat f, double d) {
  if (f == DataFormat::ASCII) {
    if (isInt(t)) out << (long long)d;
    else { out.precision(std::numeric_limits<double>::max_digits10); out << d; }
    return;
  }
  unsigned char b[8];
  size_t n = sizeOf(t);
  switch (t) {
  case T::I8: { int8_t v = (int8_t)d; std::memcpy(b, &v, 1); break; }
  case T::U8: { uint8_t v = (uint8_t)d; std::memcpy(b, &v, 1); break; }
  case T::I16: { int16_t v = (int16_t)d; std::memcpy(b, &v, 2); break; }
  case T::U16: { uint16_t v = (uint16_t)d; std::memcpy(b, &v, 2); break; }
  case T::I32: { int32_t v = (int32_t)d; std::memcpy(b, &v, 4); break; }
  case T::U32: { uint32_t v = (uint32_t)d; std::memcpy(b, &v, 4); break; }
  case T::F32: { float v = (float)d; std::memcpy(b, &v, 4); break; }
  case T::F64: { std::memcpy(b, &d, 8); break; }
  }
  if (f == DataFormat::BinaryBigEndian) std::reverse(b, b + n);
  out.write((char*)b, (std::streamsize)n);
}
} // namespace detail

class Property {
public:
  std::string name;
  detail::T type;
  bool isList = false;
  std::vector<double> data;                // scalar property
  std::vector<std::vector<double>> lists;  // list property
};

class Element {
public:
  Element(const std::string& n, size_t c) : name(n), count(c) {}
  std::string name;
  size_t count;
  std::vector<Property> properties;

  bool hasProperty(const std::string& target) {
    for (auto& p : properties)
      if (p.name == target) return true;
    return false;
  }
  std::vector<std::string> getPropertyNames() {
    std::vector<std::string> r;
    for (auto& p : properties) r.push_back(p.name);
    return r;
  }

  template <class X>
  void addProperty(const std::string& pname, const std::vector<X>& d) {
    if (d.size() != count)
      throw std::runtime_error("PLY write: new property " + pname + " has size which does not match element");
    drop(pname);
    Property p;
    p.name = pname;
    p.type = detail::TypeOf<X>::t;
    p.data.assign(d.begin(), d.end());
    properties.push_back(std::move(p));
  }
  template <class X>
  void addListProperty(const std::string& pname, const std::vector<std::vector<X>>& d) {
    if (d.size() != count)
      throw std::runtime_error("PLY write: new property " + pname + " has size which does not match element");
    drop(pname);
    Property p;
    p.name = pname;
    p.type = detail::TypeOf<X>::t;
    p.isList = true;
    for (auto& l : d) p.lists.emplace_back(l.begin(), l.end());
    properties.push_back(std::move(p));
  }
  template <class X>
  std::vector<X> getProperty(const std::string& pname) {
    Property& p = find(pname);
    if (p.isList || !detail::convertible(p.type, detail::TypeOf<X>::t))
      throw std::runtime_error("PLY parser: property " + pname + " is not of requested type");
    std::vector<X> r;
    r.reserve(p.data.size());
    for (double d : p.data) r.push_back((X)d);
    return r;
  }
  template <class X>
  std::vector<std::vector<X>> getListPropertyAnySign(const std::string& pname) {
    Property& p = find(pname);
    if (!p.isList || !detail::isInt(p.type))
      throw std::runtime_error("PLY parser: list property " + pname + " is not of requested type");
    std::vector<std::vector<X>> r;
    for (auto& l : p.lists) {
      r.emplace_back();
      for (double d : l) r.back().push_back((X)(long long)d);
    }
    return r;
  }
  Property& find(const std::string& target) {
    for (auto& p : properties)
      if (p.name == target) return p;
    throw std::runtime_error("PLY parser: element " + name + " does not have property " + target);
  }

private:
  void drop(const std::string& pname) {
    for (size_t i = 0; i < properties.size(); i++)
      if (properties[i].name == pname) { properties.erase(properties.begin() + (long)i); i--; }
  }
};

class PLYData {
public:
  PLYData() {}
  PLYData(const std::string& filename, bool verbose = false) {
    std::ifstream in(filename, std::ios::binary);
    if (in.fail()) throw std::runtime_error("PLY parser: Could not open file " + filename);
    parse(in);
  }
  PLYData(std::istream& in, bool verbose = false) {
    if (in.fail()) throw std::runtime_error("PLY parser: Could not read from stream");
    parse(in);
  }

  std::vector<std::string> comments, objInfoComments;

  bool hasElement(const std::string& target) {
    for (auto& e : elements)
      if (e.name == target) return true;
    return false;
  }
  Element& getElement(const std::string& target) {
    for (auto& e : elements)
      if (e.name == target) return e;
    throw std::runtime_error("PLY parser: no element with name: " + target);
  }
  std::vector<std::string> getElementNames() {
    std::vector<std::string> r;
    for (auto& e : elements) r.push_back(e.name);
    return r;
  }
  void addElement(const std::string& name, size_t count) { elements.emplace_back(name, count); }

  std::vector<std::array<double, 3>> getVertexPositions(const std::string& vertexElementName = "vertex") {
    auto& e = getElement(vertexElementName);
    std::vector<double> x = e.getProperty<double>("x"), y = e.getProperty<double>("y"), z = e.getProperty<double>("z");
    std::vector<std::array<double, 3>> r(x.size());
    for (size_t i = 0; i < x.size(); i++) r[i] = {{x[i], y[i], z[i]}};
    return r;
  }
  template <typename X = size_t>
  std::vector<std::vector<X>> getFaceIndices() {
    for (const std::string& f : {"face"})
      for (const std::string& p : {"vertex_indices", "vertex_index"})
        if (hasElement(f) && getElement(f).hasProperty(p)) return getElement(f).getListPropertyAnySign<X>(p);
    throw std::runtime_error("PLY parser: could not find face vertex indices");
  }
  void addVertexPositions(std::vector<std::array<double, 3>>& vp) {
    if (!hasElement("vertex")) addElement("vertex", vp.size());
    std::vector<double> x, y, z;
    for (auto& p : vp) { x.push_back(p[0]); y.push_back(p[1]); z.push_back(p[2]); }
    getElement("vertex").addProperty<double>("x", x);
    getElement("vertex").addProperty<double>("y", y);
    getElement("vertex").addProperty<double>("z", z);
  }
  template <typename X>
  void addFaceIndices(std::vector<std::vector<X>>& inds) {
    if (!hasElement("face")) addElement("face", inds.size());
    std::vector<std::vector<int32_t>> out;
    for (auto& l : inds) {
      out.emplace_back();
      for (X v : l) {
        if ((unsigned long long)v > (unsigned long long)INT32_MAX) throw std::runtime_error("Index too large");
        out.back().push_back((int32_t)v);
      }
    }
    getElement("face").addListProperty<int32_t>("vertex_indices", out);
  }

  void write(const std::string& filename, DataFormat format = DataFormat::ASCII) {
    std::ofstream out(filename, std::ios::out | std::ios::binary);
    if (!out.good()) throw std::runtime_error("PLY writer: Could not open output file " + filename + " for writing");
    write(out, format);
  }
  void write(std::ostream& out, DataFormat format = DataFormat::ASCII) {
    out << "ply\nformat "
        << (format == DataFormat::ASCII ? "ascii" : format == DataFormat::Binary ? "binary_little_endian" : "binary_big_endian")
        << " 1.0\ncomment Written with happly stand-in\n";
    for (auto& e : elements) {
      out << "element " << e.name << " " << e.count << "\n";
      for (auto& p : e.properties) {
        if (p.isList) out << "property list uint " << detail::nameOf(p.type) << " " << p.name << "\n";
        else out << "property " << detail::nameOf(p.type) << " " << p.name << "\n";
      }
    }
    out << "end_header\n";
    for (auto& e : elements)
      for (size_t i = 0; i < e.count; i++) {
        bool first = true;
        for (auto& p : e.properties) {
          if (!first && format == DataFormat::ASCII) out << " ";
          first = false;
          if (p.isList) {
            detail::writeScalar(out, detail::T::U32, format, (double)p.lists[i].size());
            for (double d : p.lists[i]) {
              if (format == DataFormat::ASCII) out << " ";
              detail::writeScalar(out, p.type, format, d);
            }
          } else detail::writeScalar(out, p.type, format, p.data[i]);
        }
        if (format == DataFormat::ASCII) out << "\n";
      }
  }

private:
  std::vector<Element> elements;

  void parse(std::istream& in) {
    auto getl = [&](std::string& s) {
      if (!std::getline(in, s)) throw std::runtime_error("PLY parser: unexpected end of header");
      if (!s.empty() && s.back() == '\r') s.pop_back();
    };
    std::string line;
    getl(line);
    if (line != "ply") throw std::runtime_error("PLY parser: File does not appear to be ply file");
    DataFormat fmt = DataFormat::ASCII;
    std::vector<std::vector<detail::T>> listCount;
    while (true) {
      getl(line);
      std::istringstream ls(line);
      std::string w;
      ls >> w;
      if (w == "comment" || w == "obj_info") { comments.push_back(line); continue; }
      if (w == "format") {
        std::string f;
        ls >> f;
        if (f == "ascii") fmt = DataFormat::ASCII;
        else if (f == "binary_little_endian") fmt = DataFormat::Binary;
        else if (f == "binary_big_endian") fmt = DataFormat::BinaryBigEndian;
        else throw std::runtime_error("PLY parser: bad format");
        continue;
      }
      if (w == "element") {
        std::string n;
        size_t c;
        if (!(ls >> n >> c)) throw std::runtime_error("PLY parser: bad element line");
        elements.emplace_back(n, c);
        listCount.emplace_back();
        continue;
      }
      if (w == "property") {
        if (elements.empty()) throw std::runtime_error("PLY parser: property before element");
        std::string t;
        ls >> t;
        Property p;
        detail::T ct = detail::T::U8;
        if (t == "list") {
          std::string c, v;
          ls >> c >> v;
          p.isList = true;
          ct = detail::parseType(c);
          p.type = detail::parseType(v);
        } else p.type = detail::parseType(t);
        if (!(ls >> p.name)) throw std::runtime_error("PLY parser: bad property line");
        elements.back().properties.push_back(p);
        listCount.back().push_back(ct);
        continue;
      }
      if (w == "end_header") break;
      throw std::runtime_error("Unrecognized header line: " + line);
    }
    for (size_t iE = 0; iE < elements.size(); iE++) {
      Element& e = elements[iE];
      for (size_t i = 0; i < e.count; i++)
        for (size_t iP = 0; iP < e.properties.size(); iP++) {
          Property& p = e.properties[iP];
          if (p.isList) {
            size_t n = (size_t)detail::readScalar(in, listCount[iE][iP], fmt);
            p.lists.emplace_back();
            for (size_t k = 0; k < n; k++) p.lists.back().push_back(detail::readScalar(in, p.type, fmt));
          } else p.data.push_back(detail::readScalar(in, p.type, fmt));
        }
    }
  }
};

} // namespace happly
