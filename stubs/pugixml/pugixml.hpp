// A small in-memory document tree with the part of pugixml's interface that the repository uses, so that
// symbolic names and values flow through it (libpugixml is not instrumented).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <memory>
#include <ostream>
#include <string>
#include <vector>

namespace pugi
{
typedef char char_t;
enum xml_node_type { node_null, node_document, node_element, node_pcdata, node_cdata, node_comment, node_pi, node_declaration, node_doctype };
enum xml_parse_status { status_ok = 0, status_file_not_found, status_other };

namespace sxd
{
struct Attribute
{
  std::string name, text;
  int kind = 0;  // 0 text, 1 real, 2 unsigned, 3 signed
  double real = 0;
  unsigned long long integer = 0;
  const char * c_str()
  {
    if (kind == 1) { char b[64]; snprintf(b, sizeof b, "%.17g", real); text = b; kind = 0; }
    else if (kind == 2) { text = std::to_string(integer); }
    else if (kind == 3) { text = std::to_string(static_cast<long long>(integer)); }
    return text.c_str();
  }
};
struct Node
{
  xml_node_type type = node_element;
  std::string name, value;
  Node * parent = nullptr;
  std::vector<std::unique_ptr<Node>> kids;
  std::vector<std::unique_ptr<Attribute>> attrs;
};
}  // namespace sxd

class xml_attribute
{
public:
  sxd::Attribute * a = nullptr;
  xml_attribute() = default;
  explicit xml_attribute(sxd::Attribute * a) : a(a) {}
  explicit operator bool() const { return a != nullptr; }
  bool operator!() const { return a == nullptr; }
  bool empty() const { return a == nullptr; }
  const char * name() const { return a ? a->name.c_str() : ""; }
  const char * value() const { return a ? a->c_str() : ""; }
  const char * as_string(const char * d = "") const { return a ? a->c_str() : d; }
  xml_attribute & operator=(const char * s) { if (a) { a->kind = 0; a->text = s; } return *this; }
  xml_attribute & operator=(double v) { if (a) { a->kind = 1; a->real = v; } return *this; }
  xml_attribute & operator=(float v) { return *this = static_cast<double>(v); }
  xml_attribute & operator=(unsigned long v) { if (a) { a->kind = 2; a->real = static_cast<double>(v); a->integer = v; } return *this; }
  xml_attribute & operator=(unsigned int v) { return *this = static_cast<unsigned long>(v); }
  xml_attribute & operator=(unsigned long long v) { return *this = static_cast<unsigned long>(v); }
  xml_attribute & operator=(int v) { if (a) { a->kind = 3; a->real = static_cast<double>(v); a->integer = static_cast<unsigned long long>(static_cast<long long>(v)); } return *this; }
  xml_attribute & operator=(long v) { if (a) { a->kind = 3; a->real = static_cast<double>(v); a->integer = static_cast<unsigned long long>(v); } return *this; }
  xml_attribute & operator=(bool v) { return *this = v ? "true" : "false"; }
  template <typename T>
  bool set_value(const T & v) { *this = v; return a != nullptr; }
  bool operator==(const xml_attribute & o) const { return a == o.a; }
};

class xml_node;
class xml_node_iterator;
template <typename It>
class xml_object_range
{
  It b, e;

public:
  using const_iterator = It;
  using iterator = It;
  xml_object_range(It b, It e) : b(b), e(e) {}
  It begin() const { return b; }
  It end() const { return e; }
  bool empty() const { return b == e; }
};
class xml_text
{
  sxd::Node * n;
  sxd::Node * data() const
  {
    if (n) for (auto & k : n->kids) if (k->type == node_pcdata || k->type == node_cdata) return k.get();
    return nullptr;
  }

public:
  explicit xml_text(sxd::Node * n) : n(n) {}
  const char * get() const { auto * d = data(); return d ? d->value.c_str() : ""; }
  const char * as_string(const char * x = "") const { auto * d = data(); return d ? d->value.c_str() : x; }
  bool empty() const { return !data(); }
  bool set(const char * s)
  {
    auto * d = data();
    if (!d) { n->kids.push_back(std::make_unique<sxd::Node>()); d = n->kids.back().get(); d->type = node_pcdata; d->parent = n; }
    d->value = s;
    return true;
  }
  xml_text & operator=(const char * s) { set(s); return *this; }
};
class xml_tree_walker;
class xml_attribute_iterator
{
  std::vector<std::unique_ptr<sxd::Attribute>>::iterator i;
  mutable xml_attribute c;

public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = xml_attribute;
  using difference_type = std::ptrdiff_t;
  using pointer = xml_attribute *;
  using reference = xml_attribute &;
  explicit xml_attribute_iterator(std::vector<std::unique_ptr<sxd::Attribute>>::iterator i) : i(i) {}
  xml_attribute & operator*() const { c = xml_attribute(i->get()); return c; }
  xml_attribute * operator->() const { c = xml_attribute(i->get()); return &c; }
  xml_attribute_iterator & operator++() { ++i; return *this; }
  bool operator==(const xml_attribute_iterator & o) const { return i == o.i; }
  bool operator!=(const xml_attribute_iterator & o) const { return i != o.i; }
};
class xml_named_node_iterator;
class xml_node
{
public:
  sxd::Node * n = nullptr;
  xml_node() = default;
  explicit xml_node(sxd::Node * n) : n(n) {}
  explicit operator bool() const { return n != nullptr; }
  bool operator!() const { return n == nullptr; }
  bool empty() const { return n == nullptr; }
  bool operator==(const xml_node & o) const { return n == o.n; }
  bool operator!=(const xml_node & o) const { return n != o.n; }
  bool operator<(const xml_node & o) const { return n < o.n; }
  xml_node_type type() const { return n ? n->type : node_null; }
  const char * name() const { return n ? n->name.c_str() : ""; }
  const char * value() const { return n ? n->value.c_str() : ""; }
  bool set_name(const char * s) { if (n) n->name = s; return n; }
  bool set_value(const char * s) { if (n) n->value = s; return n; }
  xml_node parent() const { return xml_node(n ? n->parent : nullptr); }
  xml_node root() const { auto * r = n; while (r && r->parent) r = r->parent; return xml_node(r); }
  size_t hash_value() const { return reinterpret_cast<size_t>(n); }
  xml_node child(const char * name) const
  {
    if (n) for (auto & k : n->kids) if (!std::strcmp(k->name.c_str(), name)) return xml_node(k.get());
    return xml_node();
  }
  xml_attribute attribute(const char * name) const
  {
    if (n) for (auto & k : n->attrs) if (!std::strcmp(k->name.c_str(), name)) return xml_attribute(k.get());
    return xml_attribute();
  }
  xml_node append_child(xml_node_type t = node_element)
  {
    if (!n) return xml_node();
    n->kids.push_back(std::make_unique<sxd::Node>());
    n->kids.back()->type = t;
    n->kids.back()->parent = n;
    return xml_node(n->kids.back().get());
  }
  xml_node append_child(const char * name) { auto k = append_child(node_element); k.set_name(name); return k; }
  xml_attribute append_attribute(const char * name)
  {
    if (!n) return xml_attribute();
    n->attrs.push_back(std::make_unique<sxd::Attribute>());
    n->attrs.back()->name = name;
    return xml_attribute(n->attrs.back().get());
  }
  bool remove_attribute(const char * name)
  {
    for (size_t i = 0; n && i < n->attrs.size(); ++i) if (n->attrs[i]->name == name) { n->attrs.erase(n->attrs.begin() + i); return true; }
    return false;
  }
  bool remove_child(const xml_node & c)
  {
    for (size_t i = 0; n && i < n->kids.size(); ++i) if (n->kids[i].get() == c.n) { n->kids.erase(n->kids.begin() + i); return true; }
    return false;
  }
  xml_node first_child() const { return xml_node(n && !n->kids.empty() ? n->kids.front().get() : nullptr); }
  xml_node last_child() const { return xml_node(n && !n->kids.empty() ? n->kids.back().get() : nullptr); }
  xml_node next_sibling() const
  {
    if (n && n->parent) for (size_t i = 0; i + 1 < n->parent->kids.size(); ++i) if (n->parent->kids[i].get() == n) return xml_node(n->parent->kids[i + 1].get());
    return xml_node();
  }
  const char * child_value() const { return text().get(); }
  const char * child_value(const char * name) const { return child(name).child_value(); }
  xml_text text() const { return xml_text(n); }
  inline xml_node_iterator begin() const;
  inline xml_node_iterator end() const;
  inline xml_object_range<xml_node_iterator> children() const;
  inline xml_object_range<xml_named_node_iterator> children(const char * name) const;
  xml_object_range<xml_attribute_iterator> attributes() const
  {
    static std::vector<std::unique_ptr<sxd::Attribute>> none;
    auto & v = n ? n->attrs : none;
    return {xml_attribute_iterator(v.begin()), xml_attribute_iterator(v.end())};
  }
  inline bool traverse(xml_tree_walker & w);
  xml_node append_copy(const xml_node & o)
  {
    auto k = append_child(o.type());
    k.n->name = o.n->name;
    k.n->value = o.n->value;
    for (auto & a : o.n->attrs) { auto b = k.append_attribute(a->name.c_str()); b = a->c_str(); }
    for (auto & c : o.n->kids) k.append_copy(xml_node(c.get()));
    return k;
  }
  void print(std::ostream & os, const char * = "\t", unsigned = 0, int = 0, unsigned = 0) const
  {
    if (!n) return;
    if (n->type == node_pcdata) { os << n->value; return; }
    if (n->type == node_element) {
      os << '<' << n->name;
      for (auto & a : n->attrs) os << ' ' << a->name << "=\"" << a->c_str() << '"';
      os << '>';
    }
    for (auto & c : n->kids) xml_node(c.get()).print(os);
    if (n->type == node_element) os << "</" << n->name << '>';
  }
};
class xml_node_iterator
{
  std::vector<std::unique_ptr<sxd::Node>>::iterator i;
  mutable xml_node c;

public:
  using iterator_category = std::bidirectional_iterator_tag;
  using value_type = xml_node;
  using difference_type = std::ptrdiff_t;
  using pointer = xml_node *;
  using reference = xml_node &;
  xml_node_iterator() = default;
  explicit xml_node_iterator(std::vector<std::unique_ptr<sxd::Node>>::iterator i) : i(i) {}
  xml_node & operator*() const { c = xml_node(i->get()); return c; }
  xml_node * operator->() const { c = xml_node(i->get()); return &c; }
  xml_node_iterator & operator++() { ++i; return *this; }
  xml_node_iterator operator++(int) { auto t = *this; ++i; return t; }
  xml_node_iterator & operator--() { --i; return *this; }
  bool operator==(const xml_node_iterator & o) const { return i == o.i; }
  bool operator!=(const xml_node_iterator & o) const { return i != o.i; }
};
class xml_named_node_iterator
{
  sxd::Node * p = nullptr;
  size_t k = 0;
  std::string name;
  mutable xml_node c;
  void skip() { while (p && k < p->kids.size() && std::strcmp(p->kids[k]->name.c_str(), name.c_str())) ++k; }

public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = xml_node;
  using difference_type = std::ptrdiff_t;
  using pointer = xml_node *;
  using reference = xml_node &;
  xml_named_node_iterator(sxd::Node * p, size_t k, const char * name) : p(p), k(k), name(name) { skip(); }
  xml_node & operator*() const { c = xml_node(p->kids[k].get()); return c; }
  xml_node * operator->() const { c = xml_node(p->kids[k].get()); return &c; }
  xml_named_node_iterator & operator++() { ++k; skip(); return *this; }
  bool operator==(const xml_named_node_iterator & o) const { return k == o.k; }
  bool operator!=(const xml_named_node_iterator & o) const { return k != o.k; }
};
namespace sxd { inline std::vector<std::unique_ptr<Node>> & nobody() { static std::vector<std::unique_ptr<Node>> v; return v; } }
xml_node_iterator xml_node::begin() const { return xml_node_iterator((n ? n->kids : sxd::nobody()).begin()); }
xml_node_iterator xml_node::end() const { return xml_node_iterator((n ? n->kids : sxd::nobody()).end()); }
xml_object_range<xml_node_iterator> xml_node::children() const { return {begin(), end()}; }
xml_object_range<xml_named_node_iterator> xml_node::children(const char * name) const
{
  return {xml_named_node_iterator(n, 0, name), xml_named_node_iterator(n, n ? n->kids.size() : 0, name)};
}
inline xml_node_iterator begin(const xml_node & n) { return n.begin(); }
inline xml_node_iterator end(const xml_node & n) { return n.end(); }

class xml_tree_walker
{
public:
  int d = 0;
  int depth() const { return d; }
  virtual ~xml_tree_walker() = default;
  virtual bool begin(xml_node &) { return true; }
  virtual bool for_each(xml_node &) = 0;
  virtual bool end(xml_node &) { return true; }
};
bool xml_node::traverse(xml_tree_walker & w)
{
  struct R
  {
    static bool go(sxd::Node * n, xml_tree_walker & w, int d)
    {
      for (size_t i = 0; i < n->kids.size(); ++i) {
        xml_node k(n->kids[i].get());
        w.d = d;
        if (!w.for_each(k) || !go(k.n, w, d + 1)) return false;
      }
      return true;
    }
  };
  w.d = -1;
  if (!w.begin(*this)) return false;
  if (n && !R::go(n, w, 0)) return false;
  w.d = -1;
  return w.end(*this);
}

struct xml_parse_result
{
  xml_parse_status status = status_ok;
  explicit operator bool() const { return status == status_ok; }
  const char * description() const { return status == status_ok ? "No error" : "File was not found"; }
};
// what the last save_file of any document stored (the harness reads it)
namespace sxd { inline Node *& saved() { static Node * s = nullptr; return s; } }

class xml_document : public xml_node
{
  std::shared_ptr<sxd::Node> own;

  struct Parser
  {
    const char * p;
    void space() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
    std::string word() { std::string s; while (*p && !std::strchr(" \n\t\r=/>", *p)) s.push_back(*p++); return s; }
    static std::string decode(const std::string & s)
    {
      std::string r;
      for (size_t i = 0; i < s.size(); ++i) {
        if (s.compare(i, 6, "&quot;") == 0) { r.push_back('"'); i += 5; }
        else if (s.compare(i, 5, "&amp;") == 0) { r.push_back('&'); i += 4; }
        else if (s.compare(i, 4, "&lt;") == 0) { r.push_back('<'); i += 3; }
        else if (s.compare(i, 4, "&gt;") == 0) { r.push_back('>'); i += 3; }
        else r.push_back(s[i]);
      }
      return r;
    }
    void content(xml_node parent)
    {
      for (;;) {
        std::string t;
        while (*p && *p != '<') t.push_back(*p++);
        if (t.find_first_not_of(" \n\t\r") != std::string::npos) parent.append_child(node_pcdata).set_value(decode(t).c_str());
        if (!*p || p[1] == '/') return;
        if (p[1] == '?' || p[1] == '!') { while (*p && *p != '>') ++p; if (*p) ++p; continue; }
        ++p;
        auto n = parent.append_child(word().c_str());
        for (space(); *p && *p != '>' && *p != '/'; space()) {
          auto a = n.append_attribute(word().c_str());
          space(); ++p; space();  // =
          const char q = *p++;
          std::string v;
          while (*p && *p != q) v.push_back(*p++);
          ++p;
          a = decode(v).c_str();
        }
        if (*p == '/') { p += 2; continue; }
        ++p;
        content(n);
        while (*p && *p != '>') ++p;
        if (*p) ++p;
      }
    }
  };

public:
  xml_document() { reset(); }
  void reset() { own = std::make_shared<sxd::Node>(); own->type = node_document; n = own.get(); }
  void reset(const xml_document & o) { reset(); for (auto & k : o.n->kids) append_copy(xml_node(k.get())); }
  xml_node document_element() const { for (auto & k : n->kids) if (k->type == node_element) return xml_node(k.get()); return xml_node(); }
  xml_parse_result load_string(const char * s, unsigned = 0) { reset(); Parser{s}.content(*this); return {}; }
  xml_parse_result load_file(const char *, unsigned = 0) { reset(); return {status_file_not_found}; }
  template <typename... Ts>
  bool save_file(Ts &&...) const
  {
    static std::vector<std::shared_ptr<sxd::Node>> keep;
    keep.push_back(own);
    sxd::saved() = own.get();
    return true;
  }
  void save(std::ostream & os, const char * = "\t", unsigned = 0, int = 0) const { print(os); }
};
}  // namespace pugi
