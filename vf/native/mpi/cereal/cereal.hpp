// A stand-in for the parts of cereal that binary archives of the containers in
// this tree need (the submodule is empty here).  What is written and read is
// what cereal's binary archives write: values as they are in memory, sizes of
// containers as 64 bit numbers.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace cereal {

using size_type = std::uint64_t;

enum class specialization
{
  member_serialize,
  member_load_save,
  member_load_save_minimal,
  non_member_serialize,
  non_member_load_save,
  non_member_load_save_minimal
};

template <class Archive, class T, specialization S>
struct specialize : std::false_type
{};

struct Exception : public std::runtime_error
{
  using std::runtime_error::runtime_error;
};

template <class T>
struct SizeTag
{
  T size;
};

template <class T>
SizeTag<T> make_size_tag(T&& s)
{
  return { std::forward<T>(s) };
}

struct access
{
  template <class A, class T>
  static auto serialize(A& ar, T& t) -> decltype(t.serialize(ar))
  {
    return t.serialize(ar);
  }
  template <class A, class T>
  static auto save(A& ar, const T& t) -> decltype(t.save(ar))
  {
    return t.save(ar);
  }
  template <class A, class T>
  static auto load(A& ar, T& t) -> decltype(t.load(ar))
  {
    return t.load(ar);
  }
};

namespace detail {

template <int N>
struct rank : rank<N - 1>
{};
template <>
struct rank<0>
{};

template <class A, class T>
auto put(A& ar, const T& t, rank<4>)
  -> std::enable_if_t<std::is_arithmetic<T>::value>
{
  ar.saveBinary(&t, sizeof(T));
}
template <class A, class T>
auto put(A& ar, const T& t, rank<3>) -> decltype(access::save(ar, t), void())
{
  access::save(ar, t);
}
template <class A, class T>
auto put(A& ar, const T& t, rank<2>)
  -> decltype(access::serialize(ar, const_cast<T&>(t)), void())
{
  access::serialize(ar, const_cast<T&>(t));
}
template <class A, class T>
auto put(A& ar, const T& t, rank<1>) -> decltype(save(ar, t), void())
{
  save(ar, t);
}
template <class A, class T>
auto put(A& ar, const T& t, rank<0>)
  -> decltype(serialize(ar, const_cast<T&>(t)), void())
{
  serialize(ar, const_cast<T&>(t));
}

template <class A, class T>
auto get(A& ar, T& t, rank<4>)
  -> std::enable_if_t<std::is_arithmetic<T>::value>
{
  ar.loadBinary(&t, sizeof(T));
}
template <class A, class T>
auto get(A& ar, T& t, rank<3>) -> decltype(access::load(ar, t), void())
{
  access::load(ar, t);
}
template <class A, class T>
auto get(A& ar, T& t, rank<2>) -> decltype(access::serialize(ar, t), void())
{
  access::serialize(ar, t);
}
template <class A, class T>
auto get(A& ar, T& t, rank<1>) -> decltype(load(ar, t), void())
{
  load(ar, t);
}
template <class A, class T>
auto get(A& ar, T& t, rank<0>) -> decltype(serialize(ar, t), void())
{
  serialize(ar, t);
}
} // namespace detail

class BinaryOutputArchive
{
public:
  explicit BinaryOutputArchive(std::ostream& s) : m_stream(s) {}

  template <class... T>
  BinaryOutputArchive& operator()(T&&... t)
  {
    int unused[] = { 0, (one(t), 0)... };
    (void)unused;
    return *this;
  }

  template <class T>
  BinaryOutputArchive& operator&(T&& t)
  {
    one(t);
    return *this;
  }

  void saveBinary(const void* data, std::streamsize size)
  {
    auto n = m_stream.rdbuf()->sputn(static_cast<const char*>(data), size);
    if (n != size) {
      throw Exception("Failed to write " + std::to_string(size) +
                      " bytes to output stream! Wrote " + std::to_string(n));
    }
  }

private:
  template <class T>
  void one(const T& t)
  {
    detail::put(*this, t, detail::rank<4>());
  }
  template <class T>
  void one(const SizeTag<T>& t)
  {
    size_type n = t.size;
    saveBinary(&n, sizeof(n));
  }

  std::ostream& m_stream;
};

class BinaryInputArchive
{
public:
  explicit BinaryInputArchive(std::istream& s) : m_stream(s) {}

  template <class... T>
  BinaryInputArchive& operator()(T&&... t)
  {
    int unused[] = { 0, (one(t), 0)... };
    (void)unused;
    return *this;
  }

  template <class T>
  BinaryInputArchive& operator&(T&& t)
  {
    one(t);
    return *this;
  }

  void loadBinary(void* data, std::streamsize size)
  {
    auto n = m_stream.rdbuf()->sgetn(static_cast<char*>(data), size);
    if (n != size) {
      throw Exception("Failed to read " + std::to_string(size) +
                      " bytes from input stream! Read " + std::to_string(n));
    }
  }

private:
  template <class T>
  void one(T& t)
  {
    detail::get(*this, t, detail::rank<4>());
  }
  template <class T>
  void one(SizeTag<T>& t)
  {
    size_type n;
    loadBinary(&n, sizeof(n));
    t.size = n;
  }

  std::istream& m_stream;
};
} // namespace cereal

#include <array>
#include <map>
#include <string>
#include <vector>

namespace cereal {
// std::vector, std::array and std::map, element by element

template <class Archive, class T, class A>
void save(Archive& ar, std::vector<T, A> const& v)
{
  ar(make_size_tag(static_cast<size_type>(v.size())));
  for (auto&& x : v) {
    T const& y = x;
    ar(y);
  }
}

template <class Archive, class T, class A>
void load(Archive& ar, std::vector<T, A>& v)
{
  SizeTag<size_type> n{ 0 };
  ar(n);
  v.clear();
  for (size_type i = 0; i < n.size; i++) {
    T x{};
    ar(x);
    v.push_back(std::move(x));
  }
}

template <class Archive, class T, size_t N>
void save(Archive& ar, std::array<T, N> const& v)
{
  for (auto& x : v) {
    ar(x);
  }
}

template <class Archive, class T, size_t N>
void load(Archive& ar, std::array<T, N>& v)
{
  for (auto& x : v) {
    ar(x);
  }
}

template <class Archive, class K, class V, class C, class A>
void save(Archive& ar, std::map<K, V, C, A> const& m)
{
  ar(make_size_tag(static_cast<size_type>(m.size())));
  for (auto& x : m) {
    ar(x.first, x.second);
  }
}

template <class Archive, class K, class V, class C, class A>
void load(Archive& ar, std::map<K, V, C, A>& m)
{
  SizeTag<size_type> n{ 0 };
  ar(n);
  m.clear();
  for (size_type i = 0; i < n.size; i++) {
    K k{};
    V v{};
    ar(k, v);
    m.emplace_hint(m.end(), std::move(k), std::move(v));
  }
}

template <class Archive>
void save(Archive& ar, std::string const& s)
{
  ar(make_size_tag(static_cast<size_type>(s.size())));
  ar.saveBinary(s.data(), s.size());
}

template <class Archive>
void load(Archive& ar, std::string& s)
{
  SizeTag<size_type> n{ 0 };
  ar(n);
  s.resize(n.size);
  ar.loadBinary(&s[0], n.size);
}
} // namespace cereal
