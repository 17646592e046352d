// Archives on a simulated disk: saving, losing a part, loading in this or in a
// later life of the process.
// The destructor of cereal's JSON writer verifies that the document is
// complete and throws otherwise, i.e., it terminates the process when an
// exception leaves a save function at a bad moment.  This is not a matter of
// exact-real; here, it does not do so while an exception is being handled, and
// memory that the JSON writer asks for itself does not run out.
#include <exception>
#include <new>
#include "core.hpp"
struct Reserved {};
inline void* operator new(size_t n, Reserved) { sim::heap::Quiet q; return ::operator new(n); }
inline void operator delete(void* p, Reserved) { ::operator delete(p); }
#define RAPIDJSON_NEW(T) new (Reserved{}) T
#define RAPIDJSON_ASSERT(x) if (!(x)) { if (!std::uncaught_exceptions()) throw ::cereal::RapidJSONException("rapidjson internal assertion failure: " #x); }
#include <exact-real/cereal.hpp>
#include <exact-real/cppyy.hpp>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>

#include <istream>
#include <ostream>

#include "world.hpp"

using namespace sim;

namespace {
enum Type { REAL = 0, FLOAT, BALL, MODZ, MODQ, MODK, ELZ, ELQ, ELK, TMPREAL, TMPZ, TMPQ, TMPK, VECZ, VECQ, VECK, VECREAL, NEWREAL, NEWMODZ, NEWMODQ, NEWELZ, NEWELQ, TYPES };
// Several values which are read one after the other
bool isModule(int type) { return (type >= MODZ && type <= MODK) || type == NEWMODZ || type == NEWMODQ; }
bool many(int type) { return type >= VECZ && type <= VECREAL; }

template <typename Ring> using Mod = std::shared_ptr<const Module<Ring>>;
template <typename Ring> struct Per {
  Mod<Ring> m;
  std::optional<Element<Ring>> e;
  std::vector<Element<Ring>> v;
};
// What is loaded from an archive
struct Item {
  int type = 0;
  Real r;
  std::vector<Real> rv;
  std::optional<Arf> f;
  std::optional<Arb> b;
  Per<IntegerRing> z;
  Per<RationalField> q;
  Per<NumberField> k;
  template <typename Ring> Per<Ring>& per() {
    if constexpr (std::is_same_v<Ring, IntegerRing>) return z;
    else if constexpr (std::is_same_v<Ring, RationalField>) return q;
    else return k;
  }
};
template <typename F> auto withRing(int which, F&& f) {
  if (which == 0) return f(IntegerRing());
  if (which == 1) return f(RationalField());
  return f(NumberField());
}

// ------------------------------------------------------------------ manifest
std::string ballText(const arb_t b) {
  truth::Float r;
  arf_set_mag(r.t, arb_radref(b));
  return truth::dyOf(arb_midref(b)).str() + " +- " + truth::dyOf(r.t).str();
}
std::string join(const std::vector<std::string>& v) {
  std::multiset<std::string> sorted(v.begin(), v.end());
  std::string s;
  for (auto& x : sorted) s += (s.empty() ? "" : " ") + x;
  return s;
}
template <typename Ring> std::string moduleText(World& w, const Mod<Ring>& m) {
  if (!m) return "null";
  std::vector<std::string> keys;
  for (auto& g : m->basis()) keys.push_back(describe(g));
  return ringName(w, m->ring()) + ": " + join(keys);
}
template <typename Ring> truth::Elem valueOf(World& w, const Element<Ring>& e) {
  truth::Elem r;
  const auto& basis = e.module()->basis();
  std::vector<typename Ring::ElementClass> c;
  { Loud l; c = e.coefficients(); }
  for (size_t i = 0; i < basis.size() && i < c.size(); i++) truth::addGen(r, describe(basis[i]), coef<Ring>(w, c[i]));
  { Loud l; c.clear(); c.shrink_to_fit(); }
  // (rational coefficients have no field)
  for (auto& t : r.t) if (t.second.rational()) t.second.f = 0;
  return r;
}
template <typename Ring> std::string elementText(World& w, const Element<Ring>& e) { return moduleText<Ring>(w, e.module()) + " / " + valueOf(w, e).str(); }

// One line for each loaded value of an item
std::vector<std::string> textOf(World& w, const Item& i) {
  auto& x = const_cast<Item&>(i);
  switch (i.type) {
    case REAL: case TMPREAL: case NEWREAL: return {describe(i.r)};
    case VECREAL: { std::vector<std::string> r; for (auto& p : i.rv) r.push_back(describe(p)); return r; }
    case FLOAT: return {i.f ? truth::dyOf(i.f->arf_t()).str() : "null"};
    case BALL: return {i.b ? ballText(i.b->arb_t()) : "null"};
    case NEWMODZ: case NEWMODQ: case MODZ: case MODQ: case MODK: return {withRing(i.type >= NEWMODZ ? i.type - NEWMODZ : i.type - MODZ, [&](auto R) { using Ring = decltype(R); return moduleText<Ring>(w, x.per<Ring>().m); })};
    case NEWELZ: case NEWELQ: case ELZ: case ELQ: case ELK: return {withRing(i.type >= NEWELZ ? i.type - NEWELZ : i.type - ELZ, [&](auto R) { using Ring = decltype(R); auto& e = x.per<Ring>().e; return e ? elementText<Ring>(w, *e) : std::string("null"); })};
    case TMPZ: case TMPQ: case TMPK: return {withRing(i.type - TMPZ, [&](auto R) { using Ring = decltype(R); auto& e = x.per<Ring>().e; return e ? elementText<Ring>(w, *e) : std::string("null"); })};
    default: return withRing(i.type - VECZ, [&](auto R) { using Ring = decltype(R); std::vector<std::string> r; for (auto& e : x.per<Ring>().v) r.push_back(elementText<Ring>(w, e)); return r; });
  }
}
std::string manifestLine(int type, const std::vector<std::string>& texts) {
  std::string s = std::to_string(type);
  for (auto& t : texts) s += "\t" + t;
  return s;
}
void parseManifest(const std::string& line, int& type, std::vector<std::string>& texts) {
  size_t at = line.find('\t');
  type = std::stoi(line.substr(0, at));
  texts.clear();
  while (at != std::string::npos) {
    size_t next = line.find('\t', at + 1);
    texts.push_back(line.substr(at + 1, next == std::string::npos ? next : next - at - 1));
    at = next;
  }
}

// -------------------------------------------------------------------- saving
struct Want {
  int type;
  size_t x, y;
};
template <typename Ring> bool incompatible(World& w, const ESlot<Ring>& a, const ESlot<Ring>& b) {
  if constexpr (std::is_same_v<Ring, NumberField>) {
    int f = fieldOf(w, a.mod->ring()), g = fieldOf(w, b.mod->ring());
    return f != g && f && g;
  }
  return false;
}
unsigned seedOf(const Want& i) { return 70000 + 2 * (unsigned)(i.x % 16) + 32 * (unsigned)(i.y % 8); }
// Whether there is something in these slots; the text of what will be written
bool expected(World& w, const Want& i, std::vector<std::string>& texts) {
  texts.clear();
  switch (i.type) {
    case REAL: if (!w.R[i.x % NR].p) return false; texts = {w.R[i.x % NR].key}; return true;
    case VECREAL: if (!w.R[i.x % NR].p || !w.R[i.y % NR].p) return false; texts = {w.R[i.x % NR].key, w.R[i.y % NR].key, w.R[i.x % NR].key}; return true;
    case TMPREAL: {
      auto &a = w.R[i.x % NR], &b = w.R[i.y % NR];
      if (!a.p || !b.p) return false;
      // the library does not multiply these
      mpq_class q;
      bool ra = truth::isRational(a.key, &q) && q != 1, rb = truth::isRational(b.key, &q) && q != 1;
      if ((ra && !truth::isRational(b.key)) || (rb && !truth::isRational(a.key))) return false;
      texts = {truth::mulKey(a.key, b.key)};
      return true;
    }
    // These exist only while they are written.
    case NEWREAL: texts = {"r" + to_s(seedOf(i))}; return true;
    case NEWMODZ: case NEWMODQ: texts = {std::string(i.type == NEWMODZ ? "Z" : "Q") + ": " + join({"r" + to_s(seedOf(i)), "r" + to_s(seedOf(i) + 1)})}; return true;
    case NEWELZ: case NEWELQ: {
      truth::Elem m;
      truth::addGen(m, "r" + to_s(seedOf(i)), truth::Coef(mpq_class((long)(1 + i.y % 7))));
      texts = {(i.type == NEWELZ ? "Z: r" : "Q: r") + to_s(seedOf(i)) + " / " + m.str()};
      return true;
    }
    case FLOAT: if (!w.F[i.x % NF].v) return false; texts = {w.F[i.x % NF].m.str()}; return true;
    case BALL: if (!w.B[i.x % NB].v) return false; texts = {ballText(w.B[i.x % NB].m.t)}; return true;
    case MODZ: case MODQ: case MODK:
      return withRing(i.type - MODZ, [&](auto R) {
        using Ring = decltype(R);
        auto& s = w.ring<Ring>().M[i.x % NM];
        if (!s.p) return false;
        texts = {s.ring + ": " + join(s.keys)};
        return true;
      });
    case ELZ: case ELQ: case ELK: case VECZ: case VECQ: case VECK:
      return withRing(i.type >= VECZ ? i.type - VECZ : i.type - ELZ, [&](auto R) {
        using Ring = decltype(R);
        auto &s = w.ring<Ring>().E[i.x % NE], &t = w.ring<Ring>().E[i.y % NE];
        auto text = [&](auto& s) { auto m = s.m; for (auto& c : m.t) if (c.second.rational()) c.second.f = 0; return moduleText<Ring>(w, s.mod) + " / " + m.str(); };
        if (!s.v || (i.type >= VECZ && !t.v)) return false;
        texts = {text(s)};
        if (i.type >= VECZ) texts.push_back(text(t));
        return true;
      });
    default:
      return withRing(i.type - TMPZ, [&](auto R) {
        using Ring = decltype(R);
        auto &s = w.ring<Ring>().E[i.x % NE], &t = w.ring<Ring>().E[i.y % NE];
        if (!s.v || !t.v || incompatible(w, s, t) || apart(s.keys, t.keys)) return false;
        auto m = truth::add(s.m, t.m);
        for (auto& c : m.t) if (c.second.rational()) c.second.f = 0;
        // the module of a sum is found out when it is written
        texts = {"* / " + m.str()};
        return true;
      });
  }
}
template <typename Archive> void put(World& w, Archive&& archive, const Want& i, std::string& text) {
  switch (i.type) {
    case REAL: archive(w.R[i.x % NR].p); return;
    case VECREAL: {
      std::vector<Real> v{w.R[i.x % NR].p, w.R[i.y % NR].p, w.R[i.x % NR].p};
      archive(v);
      return;
    }
    case TMPREAL: {
      Real p = *w.R[i.x % NR].p * *w.R[i.y % NR].p;
      archive(p);
      return;
    }
    case NEWREAL: archive(RealNumber::random(Seed(seedOf(i)))); return;
    case NEWMODZ: case NEWMODQ: case NEWELZ: case NEWELQ:
      withRing((i.type - NEWMODZ) % 2, [&](auto R) {
        using Ring = decltype(R);
        if constexpr (!std::is_same_v<Ring, NumberField>) {
          std::vector<Real> basis{RealNumber::random(Seed(seedOf(i)))};
          if (i.type < NEWELZ) basis.push_back(RealNumber::random(Seed(seedOf(i) + 1)));
          auto m = Module<Ring>::make(basis);
          basis.clear();
          if (i.type < NEWELZ) archive(m);
          else archive(Element<Ring>(m, {typename Ring::ElementClass((long)(1 + i.y % 7))}));
        }
      });
      return;
    case FLOAT: archive(*w.F[i.x % NF].v); return;
    case BALL: archive(*w.B[i.x % NB].v); return;
    case MODZ: archive(w.z.M[i.x % NM].p); return;
    case MODQ: archive(w.q.M[i.x % NM].p); return;
    case MODK: archive(w.k.M[i.x % NM].p); return;
    case ELZ: archive(*w.z.E[i.x % NE].v); return;
    case ELQ: archive(*w.q.E[i.x % NE].v); return;
    case ELK: archive(*w.k.E[i.x % NE].v); return;
    case VECZ: case VECQ: case VECK:
      withRing(i.type - VECZ, [&](auto R) {
        using Ring = decltype(R);
        std::vector<Element<Ring>> v{*w.ring<Ring>().E[i.x % NE].v, *w.ring<Ring>().E[i.y % NE].v};
        archive(v);
      });
      return;
    default:
      withRing(i.type - TMPZ, [&](auto R) {
        using Ring = decltype(R);
        // (the operands are copied: an operation may move them to another module)
        Element<Ring> a(*w.ring<Ring>().E[i.x % NE].v);
        const Element<Ring> b(*w.ring<Ring>().E[i.y % NE].v);
        a += b;
        archive(a);
        heap::Quiet q;
        text = moduleText<Ring>(w, a.module()) + text.substr(text.find(" / "));
      });
  }
}
template <typename Archive> void get(Archive&& archive, Item& i) {
  switch (i.type) {
    case REAL: case TMPREAL: case NEWREAL: archive(i.r); return;
    case VECREAL: archive(i.rv); return;
    case FLOAT: archive(*i.f); return;
    case BALL: archive(*i.b); return;
    case NEWMODZ: case MODZ: archive(i.z.m); return;
    case NEWMODQ: case MODQ: archive(i.q.m); return;
    case MODK: archive(i.k.m); return;
    case NEWELZ: case ELZ: case TMPZ: archive(*i.z.e); return;
    case NEWELQ: case ELQ: case TMPQ: archive(*i.q.e); return;
    case ELK: case TMPK: archive(*i.k.e); return;
    case VECZ: archive(i.z.v); return;
    case VECQ: archive(i.q.v); return;
    case VECK: archive(i.k.v); return;
  }
}
template <typename F> void withOutput(int format, std::ostream& s, F&& f) {
  if (format == 0) { cereal::JSONOutputArchive a(s); f(a); }
  else if (format == 1) { cereal::BinaryOutputArchive a(s); f(a); }
  else if (format == 2) { cereal::PortableBinaryOutputArchive a(s); f(a); }
  else { cereal::XMLOutputArchive a(s); f(a); }
}
template <typename F> void withInput(int format, std::istream& s, F&& f) {
  if (format == 0) { cereal::JSONInputArchive a(s); f(a); }
  else if (format == 1) { cereal::BinaryInputArchive a(s); f(a); }
  else if (format == 2) { cereal::PortableBinaryInputArchive a(s); f(a); }
  else { cereal::XMLInputArchive a(s); f(a); }
}
// The same for a single value, through the helpers for bindings
std::string serialized(World& w, int format, const Want& i, std::string& text) {
  std::string data;
  put(w, [&](const auto& v) {
    using T = std::decay_t<decltype(v)>;
    if (format == 0) data = exactreal::cppyy::serialize<T, cereal::JSONOutputArchive>(v);
    else if (format == 1) data = exactreal::cppyy::serialize<T, cereal::BinaryOutputArchive>(v);
    else if (format == 2) data = exactreal::cppyy::serialize<T, cereal::PortableBinaryOutputArchive>(v);
    else data = exactreal::cppyy::serialize<T, cereal::XMLOutputArchive>(v);
  }, i, text);
  return data;
}
void deserialized(int format, const std::string& data, Item& i) {
  get([&](auto& v) {
    using T = std::decay_t<decltype(v)>;
    if (format == 0) v = exactreal::cppyy::deserialize<T, cereal::JSONInputArchive>(data);
    else if (format == 1) v = exactreal::cppyy::deserialize<T, cereal::BinaryInputArchive>(data);
    else if (format == 2) v = exactreal::cppyy::deserialize<T, cereal::PortableBinaryInputArchive>(data);
    else v = exactreal::cppyy::deserialize<T, cereal::XMLInputArchive>(data);
  }, i);
}
// A number that is read has the digits of the number that was written.  (Its text alone is not enough: it is
// determined from what the number writes to an archive.)
void digits(World& w, const char* tags, const Real& p) {
  if (!p) return;
  std::optional<Arf> x;
  Op quietOp = *w.op;
  quietOp.allocFault = 0;
  const Op* old = w.op;
  w.op = &quietOp;
  Out o = w.call([&] { x.emplace(p->arf(64)); });
  w.op = old;
  const std::string key = describe(p);
  if (o != Out::OK) fail(w, tags, "rejected", key + " has no digits: " + w.what);
  // (The factors of a product may be in another order in another process.  This may change the last bits.)
  const auto d = truth::dyOf(x->arf_t());
  auto& before = w.durable.memo["digits of " + key];
  if (before.empty()) before = d.m.get_str() + " " + mpz_class(d.e).get_str();
  else {
    const size_t at = before.find(' ');
    mpz_class m(before.substr(0, at)), n = d.m, e(before.substr(at + 1)), f(d.e);
    count("memo.hit");
    bool close = m == 0 ? n == 0 : n != 0 && abs(e - f) < 1000;
    if (close && m != 0) {
      if (e > f) m <<= mpz_class(e - f).get_ui(); else n <<= mpz_class(f - e).get_ui();
      close = (abs(m - n) << 60) <= abs(m);
    }
    if (!close) fail(w, tags, "digits", key + " now starts with the digits of " + d.str() + " but was read or written with those of " + before.substr(0, at) + "p" + before.substr(at + 1));
  }
  Loud l;
  x.reset();
}
void digits(World& w, const char* tags, const Want& i) {
  switch (i.type) {
    case REAL: digits(w, tags, w.R[i.x % NR].p); return;
    case VECREAL: case TMPREAL: digits(w, tags, w.R[i.x % NR].p); digits(w, tags, w.R[i.y % NR].p); return;
    case MODZ: case MODQ: case MODK:
      withRing(i.type - MODZ, [&](auto R) { using Ring = decltype(R); for (auto& g : w.ring<Ring>().M[i.x % NM].p->basis()) digits(w, tags, g); });
      return;
    case ELZ: case ELQ: case ELK:
      withRing(i.type - ELZ, [&](auto R) { using Ring = decltype(R); for (auto& g : w.ring<Ring>().E[i.x % NE].v->module()->basis()) digits(w, tags, g); });
  }
}
// (threads do not share files)
int fileOf(World& w) { return (int)((uint64_t)w.arg(0) % 8) + 8 * w.thread; }
const char* formats[] = {"json", "binary", "portable", "xml"};
// cereal's XML archives lose text when there is no memory and group the digits of its own numbers as the global
// locale says.
int formatOf(World& w, int i) {
  int format = (int)((uint64_t)w.arg(i) % 4);
  return format == 3 && (w.op->allocFault > 0 || w.plan.get("locale") || w.plan.get("locale2")) ? 0 : format;
}
}  // namespace

// w.save file format diskmode at (type slot slot)…
OP(save, "w.save") {
  int file = fileOf(w), format = formatOf(w, 1);
  std::vector<Want> wants;
  std::vector<std::string> manifest;
  std::vector<std::vector<std::string>> texts;
  for (size_t i = 4; i + 2 < w.op->a.size(); i += 3) {
    Want x{(int)((uint64_t)w.arg(i) % TYPES), (size_t)(uint64_t)w.arg(i + 1), (size_t)(uint64_t)w.arg(i + 2)};
    std::vector<std::string> t;
    if (!expected(w, x, t)) continue;
    wants.push_back(x);
    texts.push_back(t);
  }
  if (wants.empty()) return;
  const bool helper = w.arg(2) >= 100;
  if (helper) { wants.resize(1); texts.resize(1); }
  Disk disk{helper ? 0 : (int)((uint64_t)w.arg(2) % 4), w.arg(3)};
  for (int attempt = 0;; attempt++) {
    std::string data;
    bool fired = false, good = false;
    Out o;
    bool memory = false;
    do {
      o = w.call([&] {
        if (helper) {
          good = false;
          std::string s = serialized(w, format, wants[0], texts[0][0]);
          heap::Quiet q;
          data = s;
          good = true;
          return;
        }
        std::optional<heap::Quiet> q(std::in_place);
        Sink sink(disk);
        std::ostream stream(&sink);
        q.reset();
        struct Keep {
          Sink& s;
          std::string& d;
          bool& f;
          ~Keep() { heap::Quiet q; d = s.data; f = s.fired; }
        } keep{sink, data, fired};
        good = false;
        withOutput(format, stream, [&](auto& archive) {
          for (size_t i = 0; i < wants.size(); i++) put(w, archive, wants[i], texts[i][0]);
        });
        stream.flush();
        good = stream.good();
      });
      // A stream hides that there was no memory
      memory = w.absorbed && o == Out::OK && !good && !fired;
    } while (memory && !(w.absorbed = false) && (const_cast<Op*>(w.op)->allocFault = 0) == 0);
    auto& f = w.durable.files[file];
    f = Durable::File();
    f.kind = format;
    f.bytes = data;
    f.acknowledged = o == Out::OK && good;
    f.damaged = !f.acknowledged;
    for (size_t i = 0; i < wants.size(); i++) f.manifest.push_back(manifestLine(wants[i].type, texts[i]));
    sim::log.event("  " + std::to_string(data.size()) + " bytes " + (f.acknowledged ? "written" : "lost"));
    if (fired) {
      count(disk.mode == 2 ? "disk.write-full" : "disk.write-error");
      if (f.acknowledged) fail(w, "C08", "silent-loss", std::string("the ") + formats[format] + " archive was reported as written but the disk failed");
      // Another attempt, on a working disk.
      disk.mode = 0;
      count("probe.save-again");
      if (w.arg(3) % 2) continue;
      return;
    }
    if (o != Out::OK || !good) fail(w, helper ? "C21" : attempt ? "C08 C07" : "C07 C08 C09", "save-failed", std::string("cannot write a ") + formats[format] + " archive: " + w.what);
    count(helper ? "probe.serialized" : "probe.saved");
    // (not always: digits which have been computed are kept)
    if (w.opIndex % 2)
      for (auto& i : wants) digits(w, helper ? "C21" : "C07 C09", i);
    return;
  }
}
// w.lose file bytes: the end of the file never made it to the disk
OP(lose, "w.lose") {
  auto it = w.durable.files.find(fileOf(w));
  if (it == w.durable.files.end() || it->second.bytes.empty()) return;
  auto& f = it->second;
  size_t n = 1 + (uint64_t)w.arg(1) % f.bytes.size();
  f.bytes.resize(f.bytes.size() - n);
  f.damaged = true;
  count("disk.lost-tail");
}

namespace {
// One entry too many or too few in a list of coefficients
bool spoilCoefficients(std::string& s, uint64_t which, bool extra) {
  std::vector<size_t> lists;
  for (size_t i = s.find("\"coefficients\":"); i != std::string::npos; i = s.find("\"coefficients\":", i + 1)) lists.push_back(i);
  if (lists.empty()) return false;
  size_t begin = s.find('[', lists[which % lists.size()]), end = begin + 1, last = begin + 1;
  bool text = false;
  for (int depth = 0; end < s.size() && (text || depth || s[end] != ']'); end++) {
    if (s[end] == '"') text = !text;
    if (text) continue;
    if (s[end] == '[' || s[end] == '{') depth++;
    if (s[end] == ']' || s[end] == '}') depth--;
    if (s[end] == ',' && !depth) last = end;
  }
  const std::string entry = s.substr(last, end - last);
  if (entry.find_first_not_of(" \n\t") == std::string::npos) return false;
  if (extra) s.insert(end, (entry[0] == ',' ? "" : ",") + entry);
  else s.erase(last, end - last);
  return true;
}
}  // namespace

// w.null format real module: pointers that point to nothing, next to ones that do
OP(null, "w.null") {
  const int format = formatOf(w, 0);
  const Real r = w.r(1).p;
  const auto m = w.q.M[(size_t)((uint64_t)w.arg(2) % NM)].p;
  Real r0, r1 = r, r2;
  Mod<RationalField> m0, m1 = m, m2;
  std::string data;
  Out o = w.call([&] {
    std::ostringstream s;
    withOutput(format, s, [&](auto& archive) { archive(r0, m0, r, m, m0, r0); });
    if (!s) throw std::bad_alloc();   // (streams hide that there was no memory)
    heap::Quiet q;
    data = s.str();
  });
  if (o == Out::OK) {
    o = w.call([&] {
      std::istringstream s(data);
      withInput(format, s, [&](auto& archive) { archive(r1, m1, r2, m2, m1, r1); });
    });
    if (o != Out::OK) fail(w, "C07 C08", "load-failed", "pointers to no number and no module cannot be read: " + w.what);
    if (r1 || m1 || r2 != r || m2 != m) fail(w, "C07 C08 C09", "loaded-value", "a pointer to no number or no module was not restored as such");
    count("probe.null-pointers");
  }
  { Loud l; r1.reset(); r2.reset(); m1.reset(); m2.reset(); }
}

// w.spoil file which at how: an entry of a JSON archive is no longer what it was, e.g., edited by hand
OP(spoil, "w.spoil") {
  auto it = w.durable.files.find(fileOf(w));
  if (it == w.durable.files.end() || it->second.kind != 0 || it->second.damaged || it->second.malformed) return;
  auto& f = it->second;
  if (w.arg(3) == 4 || w.arg(3) == 5) {
    // a power that is not positive; a part that is missing
    std::vector<std::pair<size_t, size_t>> where;
    const bool power = w.arg(3) == 4;
    const std::string what = power ? "\"value\": " : "\"shared\": ";
    for (size_t i = f.bytes.find(what); i != std::string::npos; i = f.bytes.find(what, i + 1)) {
      const size_t from = i + what.size(), to = f.bytes.find_first_not_of("0123456789", from);
      if (to == from || to == std::string::npos) continue;
      if (!power) {
        // the name of the object that has this entry
        size_t k = f.bytes.find_last_not_of(" \n\t", i - 1);
        if (k == std::string::npos || f.bytes[k] != '{') continue;
        k = f.bytes.find_last_not_of(" \n\t[", k - 1);
        if (k == std::string::npos || f.bytes[k] != ':') continue;
        const size_t end = f.bytes.rfind('"', k), start = f.bytes.rfind('"', end - 1);
        const std::string name = f.bytes.substr(start + 1, end - start - 1);
        if (name != "inner" && name != "key" && name != "basis" && name != "parent") continue;
        // (number fields and their elements are not archived by this library)
        if (name == "parent" && f.bytes.compare(std::min(f.bytes.size(), f.bytes.find_first_not_of(", \n\t", to)), 7, "\"basis\"") != 0) continue;
      }
      where.push_back({from, to - from});
    }
    if (where.empty()) return;
    auto [at, n] = where[(uint64_t)w.arg(1) % where.size()];
    f.bytes.replace(at, n, power && w.arg(2) % 2 ? "-" + f.bytes.substr(at, n) : "0");
    f.malformed = true;
    count(power ? "disk.malformed-power" : "disk.missing-part");
    return;
  }
  if (w.arg(3) == 1 || w.arg(3) == 2) {
    if (!spoilCoefficients(f.bytes, (uint64_t)w.arg(1), w.arg(3) == 2)) return;
    f.malformed = true;
    count("disk.malformed-length");
    return;
  }
  // the strings which are the name of a kind, a number, or an entry of a list of numbers
  std::vector<std::pair<size_t, size_t>> where;
  std::string key, kind;
  const bool fraction = w.arg(3) == 3 || w.arg(3) == 6;
  for (size_t i = 0; i < f.bytes.size(); i++) {
    if (f.bytes[i] != '"') continue;
    size_t end = f.bytes.find('"', i + 1);
    if (end == std::string::npos) break;
    std::string text = f.bytes.substr(i + 1, end - i - 1);
    if (end + 1 < f.bytes.size() && f.bytes[end + 1] == ':') key = text;
    else {
      if (key == "kind") kind = text;
      if (fraction && key == "value" && kind != "rational") { i = end; key = ""; continue; }
      bool number = !text.empty() && text.find_first_not_of("0123456789abcdef-/ ") == std::string::npos;
      if (key == "kind" || ((key == "data" || key == "value" || key == "coefficients") && number)) where.push_back({i + 1, text.size()});
      if (key == "value") kind = "";
      if (key != "coefficients") key = "";
    }
    i = end;
  }
  if (fraction) {
    // a fraction that is not one or is not in lowest terms
    for (size_t i = 0; i < where.size();) {
      const std::string text = f.bytes.substr(where[i].first, where[i].second);
      const size_t slash = text.find('/');
      if (slash == std::string::npos || text.find_first_not_of("0123456789-/") != std::string::npos) { where.erase(where.begin() + (long)i); continue; }
      i++;
    }
    if (where.empty()) return;
    auto [at, n] = where[(uint64_t)w.arg(1) % where.size()];
    const std::string text = f.bytes.substr(at, n);
    const size_t slash = text.find('/');
    if (w.arg(3) == 3) {
      f.bytes.replace(at, n, text.substr(0, slash) + "/0");
      f.malformed = true;
      count("disk.malformed-fraction");
    } else {
      const long by = 2 + (long)((uint64_t)w.arg(2) % 1000);
      const mpz_class num = mpz_class(text.substr(0, slash)) * by, den = mpz_class(text.substr(slash + 1)) * by;
      f.bytes.replace(at, n, num.get_str() + "/" + den.get_str());
      f.damaged = true;
      count("disk.not-lowest-terms");
    }
    return;
  }
  if (where.empty()) return;
  auto [at, n] = where[(uint64_t)w.arg(1) % where.size()];
  size_t k = (uint64_t)w.arg(2) % n;
  f.bytes[at + k] = f.bytes[at + k] == 'z' ? 'x' : 'z';
  f.malformed = true;
  count("disk.malformed-entry");
}

namespace {
// Everything restored must be one object with whatever is the same.
struct Seen {
  std::vector<std::pair<Real, std::string>> reals;
};
template <typename Ring> void collectModule(World& w, Seen& s, const Mod<Ring>& m) {
  for (auto& g : m->basis()) s.reals.push_back({g, describe(g)});
}
template <typename Ring> void identifyModule(World& w, const char* tags, const Mod<Ring>& m, std::vector<std::pair<Mod<Ring>, std::string>>& seen) {
  std::string t = moduleText<Ring>(w, m);
  for (auto& o : seen)
    if ((o.second == t) != (o.first == m)) fail(w, tags, "sharing-module", o.second == t ? "a module was restored as two objects: " + t : "two modules were restored as one object: " + t + " and " + o.second);
  seen.push_back({m, t});
  // against everything which is alive
  MSlot<Ring> tmp;
  std::vector<std::string> keys;
  for (auto& g : m->basis()) keys.push_back(describe(g));
  setModule<Ring>(w, tags, tmp, m, keys, ringName(w, m->ring()));
  { Loud l; tmp.p.reset(); }
}
}  // namespace

// w.load file diskmode at again into dst…
OP(load, "w.load") {
  auto it = w.durable.files.find(fileOf(w));
  if (it == w.durable.files.end()) return;
  const auto file = it->second;
  const bool helper = w.arg(1) >= 100 && file.manifest.size() == 1;
  Disk disk{helper ? 0 : (int)((uint64_t)w.arg(1) % 4), w.arg(2)};
  if (disk.mode >= 2 && !file.bytes.empty()) disk.at = (int64_t)((uint64_t)disk.at % file.bytes.size());
  const bool into = w.arg(4) & 1;
  const size_t n = file.manifest.size();
  std::vector<int> types(n);
  std::vector<std::vector<std::string>> texts(n);
  for (size_t i = 0; i < n; i++) parseManifest(file.manifest[i], types[i], texts[i]);
  auto dst = [&](size_t i) { return w.op->a.size() > 5 ? (size_t)(uint64_t)w.arg(5 + i % (w.op->a.size() - 5)) + (i / (w.op->a.size() - 5)) * 3 : i; };
  const std::string name = std::string(formats[file.kind]) + " archive of " + to_s(n) + " values in " + to_s(file.bytes.size()) + " bytes";

  for (int attempt = 0;; attempt++) {
    std::vector<Item> items(n), before;
    auto prepare = [&] {
      for (size_t i = 0; i < n; i++) {
        Loud l;
        Item fresh;
        fresh.type = types[i];
        size_t d = dst(i);
        auto per = [&](auto R) {
          using Ring = decltype(R);
          auto& s = w.ring<Ring>();
          auto& p = fresh.per<Ring>();
          if (into && s.E[d % NE].v) p.e = *s.E[d % NE].v; else p.e.emplace();
          if (into) p.m = s.M[d % NM].p;
          if (into && s.E[d % NE].v && types[i] >= VECZ && types[i] <= VECK) p.v = {*s.E[d % NE].v};
        };
        switch (types[i]) {
          case REAL: case TMPREAL: case NEWREAL: if (into) fresh.r = w.R[d % NR].p; break;
          case VECREAL: if (into) fresh.rv = {w.R[d % NR].p}; break;
          case FLOAT: if (into && w.F[d % NF].v) fresh.f = *w.F[d % NF].v; else fresh.f.emplace(); break;
          case BALL: if (into && w.B[d % NB].v) fresh.b = *w.B[d % NB].v; else fresh.b.emplace(); break;
          case NEWMODZ: case NEWMODQ: withRing(types[i] - NEWMODZ, per); break;
          case NEWELZ: case NEWELQ: withRing(types[i] - NEWELZ, per); break;
          case MODZ: case MODQ: case MODK: withRing(types[i] - MODZ, per); break;
          case ELZ: case ELQ: case ELK: withRing(types[i] - ELZ, per); break;
          case TMPZ: case TMPQ: case TMPK: withRing(types[i] - TMPZ, per); break;
          default: withRing(types[i] - VECZ, per);
        }
        items[i] = std::move(fresh);
      }
    };
    prepare();
    std::vector<std::vector<std::string>> old(n);
    for (size_t i = 0; i < n; i++) old[i] = textOf(w, items[i]);
    size_t done = 0;
    bool fired = false, started = false;
    Out o = w.call([&] {
      if (started) {
        // memory ran out before: the targets are as before or completely read
        heap::Quiet q;
        for (size_t i = done; i < n; i++)
          if (!many(types[i])) {
            auto now = textOf(w, items[i]);
            if (now != old[i] && now != texts[i]) fail(w, helper ? "C21" : "C06 C08", "target-of-failed-load", "memory ran out when reading item " + to_s(i) + " of the " + name + ", its target changed from " + manifestLine(types[i], old[i]) + " to " + manifestLine(types[i], now) + ", written was " + manifestLine(types[i], texts[i]));
          }
        prepare();
      }
      started = true;
      done = 0;
      if (helper) {
        deserialized(file.kind, file.bytes, items[0]);
        done = 1;
        return;
      }
      std::optional<heap::Quiet> q(std::in_place);
      Source source(file.bytes, disk);
      std::istream stream(&source);
      q.reset();
      struct Keep {
        Source& s;
        bool& f;
        ~Keep() { f = s.fired; }
      } keep{source, fired};
      withInput(file.kind, stream, [&](auto& archive) {
        for (done = 0; done < n; done++) get(archive, items[done]);
      });
    });
    const bool excused = fired || file.damaged || !file.acknowledged || file.malformed;
    if (fired) count(disk.mode == 2 ? "disk.read-truncated" : "disk.read-error");
    if (disk.mode == 1) count("disk.read-short");
    const char* tags = helper ? "C21" : excused ? "C08" : attempt || w.faulted ? "C08 C07 C09 C06" : "C07 C09 C08";
    sim::log.event("  " + std::to_string(done) + " of " + std::to_string(n) + " values read");
    if (!excused && o != Out::OK) fail(w, tags, "load-failed", "cannot read the " + name + ": " + w.what);
    if (file.malformed && o == Out::OK) fail(w, helper ? "C21" : "C08", "malformed-accepted", "the malformed " + name + " was read");
    if (excused && o == Out::OK) count("probe.damaged-but-complete");
    if (excused && o != Out::OK) count("probe.damage-detected");
    for (size_t i = 0; i < n; i++) {
      auto now = textOf(w, items[i]);
      if (now == texts[i]) continue;
      if (o == Out::OK || i < done) fail(w, tags, "loaded-value", "item " + to_s(i) + " of the " + name + " was " + manifestLine(types[i], texts[i]) + " but is read as " + manifestLine(types[i], now));
      // Not read successfully: either as before, or, while vectors are read, incomplete.
      bool vector = many(types[i]);
      if (now != old[i] && !vector) fail(w, helper ? "C21" : "C08 C06", "target-of-failed-load", "reading item " + to_s(i) + " of the " + name + " failed (" + w.what + ") but changed its target from " + manifestLine(types[i], old[i]) + " to " + manifestLine(types[i], now) + ", written was " + manifestLine(types[i], texts[i]));
    }
    // Identity, with each other and with everything alive
    {
      Seen seen;
      std::vector<std::pair<Mod<IntegerRing>, std::string>> mz;
      std::vector<std::pair<Mod<RationalField>, std::string>> mq;
      std::vector<std::pair<Mod<NumberField>, std::string>> mk;
      const char* t = helper ? "C21" : "C09 C07 C04";
      auto perModule = [&](auto R, const auto& m) {
        using Ring = decltype(R);
        if (!m) return;
        collectModule<Ring>(w, seen, m);
        if constexpr (std::is_same_v<Ring, IntegerRing>) identifyModule<Ring>(w, t, m, mz);
        else if constexpr (std::is_same_v<Ring, RationalField>) identifyModule<Ring>(w, t, m, mq);
        else identifyModule<Ring>(w, t, m, mk);
      };
      for (size_t i = 0; i < done; i++) {
        auto& x = items[i];
        auto per = [&](auto R) {
          using Ring = decltype(R);
          auto& p = x.per<Ring>();
          if (isModule(types[i])) perModule(R, p.m);
          else if (many(types[i])) { for (auto& e : p.v) perModule(R, e.module()); }
          else perModule(R, p.e->module());
        };
        switch (types[i]) {
          case REAL: case TMPREAL: case NEWREAL: seen.reals.push_back({x.r, texts[i][0]}); break;
          case VECREAL: for (size_t j = 0; j < x.rv.size(); j++) seen.reals.push_back({x.rv[j], texts[i][j]}); break;
          case FLOAT: case BALL: break;
          case NEWMODZ: case NEWMODQ: withRing(types[i] - NEWMODZ, per); break;
          case NEWELZ: case NEWELQ: withRing(types[i] - NEWELZ, per); break;
          case MODZ: case MODQ: case MODK: withRing(types[i] - MODZ, per); break;
          case ELZ: case ELQ: case ELK: withRing(types[i] - ELZ, per); break;
          case TMPZ: case TMPQ: case TMPK: withRing(types[i] - TMPZ, per); break;
          default: withRing(types[i] - VECZ, per);
        }
      }
      for (size_t i = 0; i < seen.reals.size(); i++) {
        auto& a = seen.reals[i];
        for (size_t j = 0; j < i; j++) {
          auto& b = seen.reals[j];
          if ((a.second == b.second) != (a.first == b.first)) fail(w, t, "sharing-real", a.second == b.second ? "a real was restored as two objects: " + a.second : "two reals were restored as one object: " + a.second + " and " + b.second);
        }
        RSlot tmp;
        setReal(w, t, tmp, a.first, a.second);
        { Loud l; tmp.p.reset(); }
      }
      if (o == Out::OK)
        for (auto& x : seen.reals) digits(w, helper ? "C21" : "C07 C09 C08", x.first);
      { Loud l; seen.reals.clear(); mz.clear(); mq.clear(); mk.clear(); }
    }
    // Keep what was read
    if (o == Out::OK) {
      for (size_t i = 0; i < n; i++) {
        size_t d = dst(i);
        auto& x = items[i];
        auto per = [&](auto R) {
          using Ring = decltype(R);
          auto& p = x.per<Ring>();
          auto& rw = w.ring<Ring>();
          auto take = [&](Element<Ring>& e, size_t at, const std::string& text) {
            setElement<Ring>(w, tags, rw.E[at % NE], std::move(e), truth::parseElem(text.substr(text.find(" / ") + 3)));
          };
          if (isModule(types[i])) {
            std::vector<std::string> keys;
            for (auto& g : p.m->basis()) keys.push_back(describe(g));
            setModule<Ring>(w, tags, rw.M[d % NM], p.m, keys, texts[i][0].substr(0, texts[i][0].find(':')));
          } else if (many(types[i])) {
            for (size_t j = 0; j < p.v.size(); j++) take(p.v[j], d + j, texts[i][j]);
          } else take(*p.e, d, texts[i][0]);
        };
        switch (types[i]) {
          case REAL: case TMPREAL: case NEWREAL: setReal(w, tags, w.R[d % NR], x.r, texts[i][0]); break;
          case VECREAL: for (size_t j = 0; j < x.rv.size(); j++) setReal(w, tags, w.R[(d + j) % NR], x.rv[j], texts[i][j]); break;
          case FLOAT: setFloat(w, tags, w.F[d % NF], *x.f, truth::dyOf(x.f->arf_t())); break;
          case BALL: setBall(w, w.B[d % NB], *x.b); break;
          case NEWMODZ: case NEWMODQ: withRing(types[i] - NEWMODZ, per); break;
          case NEWELZ: case NEWELQ: withRing(types[i] - NEWELZ, per); break;
          case MODZ: case MODQ: case MODK: withRing(types[i] - MODZ, per); break;
          case ELZ: case ELQ: case ELK: withRing(types[i] - ELZ, per); break;
          case TMPZ: case TMPQ: case TMPK: withRing(types[i] - TMPZ, per); break;
          default: withRing(types[i] - VECZ, per);
        }
      }
      count(helper ? "probe.deserialized" : "probe.loaded");
      if (w.life) count("probe.loaded-in-a-later-life");
    }
    { Loud l; items.clear(); }
    if (o == Out::OK || !fired || file.damaged || !(w.arg(3) & 1)) return;
    disk.mode = 0;
    count("probe.load-again");
  }
}

// r.far m1 e1 m2 e2 seed exponent precision json: the random real in [m1·2^e1, m2·2^e2]·2^exponent
// for an exponent which is larger than what fits in 32 bits; it differs from
// the one in [m1·2^e1, m2·2^e2] by a power of two only.
OP(far, "r.far") {
  const unsigned seed = (unsigned)w.arg(4);
  const int64_t E = w.arg(5);
  if (!w.arg(0) || !w.arg(2)) return;   // (end points of very different size need too much memory)
  const long p = (long)((uint64_t)w.arg(6) % 3000);
  auto at = [&](int64_t m, int64_t e) { return Arf(mpz_class((long)m), (long)e); };
  const std::string what = "random real in [" + to_s(w.arg(0)) + "p" + to_s(w.arg(1)) + ", " + to_s(w.arg(2)) + "p" + to_s(w.arg(3)) + "]·2^" + to_s(E) + " of seed " + to_s(seed);
  Real near, far;
  { auto o = w.call([&] { near = RealNumber::random(at(w.arg(0), w.arg(1)), at(w.arg(2), w.arg(3)), Seed(seed)); });
    if (o != Out::OK) { if (o != Out::LOGIC) fail(w, "C17", "rejected", w.what); return; } }
  auto make = [&] { return RealNumber::random(at(w.arg(0), w.arg(1) + E), at(w.arg(2), w.arg(3) + E), Seed(seed)); };
  { auto o = w.call([&] { far = make(); });
    if (o != Out::OK) fail(w, "C17", "rejected", what + ": " + w.what); }
  // close to each other, up to the power of two
  auto digits = [&](const char* tags, const char* oracle, const Real& x) {
    std::optional<Arf> a, b;
    std::optional<Arb> c;
    { auto o = w.call([&] { a.emplace(x->arf(p)); b.emplace(near->arf(p + 64)); c.emplace(x->arb(p)); });
      if (o != Out::OK) fail(w, tags, "rejected", what + ": " + w.what); }
    truth::Float s, t, r;
    truth::Ball u;
    fmpz_t shift;
    fmpz_init_set_si(shift, -E);
    arf_mul_2exp_fmpz(s.t, a->arf_t(), shift);
    arf_sub(s.t, s.t, b->arf_t(), ARF_PREC_EXACT, ARF_RND_DOWN);
    arf_abs(s.t, s.t);
    arf_abs(t.t, b->arf_t());
    arf_mul_2exp_si(r.t, t.t, 1 - p);
    bool close = arf_cmp(s.t, r.t) <= 0;
    arb_mul_2exp_fmpz(u.t, c->arb_t(), shift);
    // (what is known of the number)
    truth::Ball v;
    arb_set_arf(v.t, b->arf_t());
    arf_mul_2exp_si(r.t, t.t, -p - 62);
    arb_add_error_arf(v.t, r.t);
    bool encloses = arb_overlaps(u.t, v.t);
    fmpz_clear(shift);
    { Loud l; a.reset(); b.reset(); c.reset(); }
    if (!close || !encloses) fail(w, tags, oracle, what + " with " + to_s(p) + " bits is not the one in the interval without the power of two, times that power of two");
  };
  digits("C17 C01", "scaled", far);
  // as double, and in comparisons with the end points
  { double x = 0;
    bool below = true, above = true;
    auto o = w.call([&] {
      x = static_cast<double>(*far);
      below = *far < at(w.arg(0), w.arg(1) + E);
      above = *far > at(w.arg(2), w.arg(3) + E);
    });
    if (o != Out::OK) fail(w, "C17", "rejected", what + ": " + w.what);
    if (E > 0 ? x - x == 0 : x != 0) fail(w, "C18 C17", "double", what + " as a double is " + std::to_string(x));
    if (below || above) fail(w, "C17 C03", "interval", what + " is outside"); }
  // in an archive
  std::string text, first;
  const bool json = w.arg(7) & 1, alive = w.arg(7) & 2;
  { heap::Quiet q;
    std::ostringstream out;
    { auto o = w.call([&] {
        heap::Quiet q;
        if (json) { cereal::JSONOutputArchive archive(out); archive(far); }
        else { cereal::PortableBinaryOutputArchive archive(out); archive(far); }
      });
      if (o != Out::OK) fail(w, "C07", "rejected", "saving " + what + ": " + w.what); }
    text = out.str(); }
  { auto o = w.call([&] { std::ostringstream out; out << *far; heap::Quiet q; first = out.str(); });
    if (o != Out::OK) fail(w, "C13 C07", "rejected", "printing " + what + ": " + w.what); }
  const void* before = far.get();
  if (!alive) { Loud l; far.reset(); }
  Real loaded;
  { auto o = w.call([&] {
      std::istringstream in(text);
      if (json) { cereal::JSONInputArchive archive(in); archive(loaded); }
      else { cereal::PortableBinaryInputArchive archive(in); archive(loaded); }
    });
    if (o != Out::OK || !loaded) fail(w, "C07", "rejected", "loading " + what + ": " + w.what); }
  if (alive && loaded.get() != before) fail(w, "C07 C04", "unique", what + " loaded from an archive is another object");
  digits("C07", "archived", loaded);
  { auto o = w.call([&] { far = make(); });
    if (o != Out::OK) fail(w, "C17", "rejected", what + ": " + w.what); }
  if (far != loaded) fail(w, "C07 C04", "unique", what + " loaded from an archive is another object");
  std::string second;
  { auto o = w.call([&] { std::ostringstream out; out << *loaded; heap::Quiet q; second = out.str(); });
    if (o != Out::OK || first != second) fail(w, "C13 C07", "text", what + " is printed as " + first + " and, after it has been loaded, as " + second); }
  count("probe.far");
  Loud l;
  near.reset();
  far.reset();
  loaded.reset();
}
