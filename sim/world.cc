#include "world.hpp"

#include <cereal/cereal.hpp>
#include <exact-real/cereal.interface.hpp>

#include <external/unique-factory/unique-factory/unique-factory.hpp>

#include <new>
#include <sstream>

namespace sim {

std::map<std::string, Handler>& handlers() {
  static auto* h = new std::map<std::string, Handler>;
  return *h;
}

void fail(World& w, const char* tags, const std::string& oracle, const std::string& detail) {
  heap::Quiet q;
  std::string text = "op " + std::to_string(w.opIndex) + " (" + (w.op ? w.op->text() : std::string("end of run")) + "): " + detail;
  report(tags, oracle, text);
}

// -------------------------------------------------------------- descriptions
namespace {
struct Describer : exactreal::ICerealizer {
  std::string kind;
  std::string mantissa, exponent, value, e, inner;
  unsigned seed = 0;
  truth::Mono factors;
  void save(const std::string& name, const std::string& v) override { if (name == "kind") kind = v; }
  void save(const std::string&, const mpq_class& v) override { value = truth::rationalKey(v); }
  void save(const std::string&, unsigned int v) override { seed = v; }
  void save(const std::string&, long v) override { e = std::to_string(v); }
  void save(const std::string&, const Arf& v) override {
    auto d = truth::dyOf(v.arf_t());
    mantissa = d.kind == truth::Dy::FIN ? d.m.get_str() : d.str();
    exponent = d.e.get_str();
  }
  void save(const std::string&, const Real& v) override { inner = describe(v); }
  void save(const std::string&, const std::map<Real, int>& v) override {
    for (auto& f : v) factors[describe(f.first)] += f.second;
  }
};
}  // namespace
std::string describe(const Real& p) {
  if (!p) return "null";
  Describer d;
  RealNumber::save(d, p);
  if (d.kind == "rational") return d.value;
  if (d.kind == "random") return "r" + std::to_string(d.seed);
  if (d.kind == "constrained") {
    if (d.inner.empty() || d.inner[0] != 'r') return "?" + d.inner;
    return "c" + d.mantissa + ":" + d.exponent + ":" + d.e + ":" + d.inner.substr(1);
  }
  if (d.kind == "product") return truth::key(d.factors);
  return "?" + d.kind;
}

// --------------------------------------------------------------------- World
void World::remember(const char* tags, const std::string& key, const std::string& text, bool across) {
  auto& memo = across ? durable.memo : localMemo;
  auto it = memo.find(key);
  if (it == memo.end()) memo[key] = text;
  else {
    count("memo.hit");
    if (it->second != text) fail(*this, tags, "history", key + " is now " + text + " but was " + it->second + " before");
  }
}

Out World::call(const std::function<void()>& f) {
  faulted = absorbed = false;
  bool arm = op && op->allocFault > 0;
  for (;;) {
    Out o = Out::OK;
    what.clear();
    heap::deadline(heap::stats().ticks + (uint64_t)plan.get("ticks", 4000000));
    {
      Loud l;
      if (arm) heap::armFault(op->allocFault);
      try {
        f();
      } catch (const std::bad_alloc&) {
        o = Out::NOMEM;
      } catch (const std::logic_error& e) {
        heap::Quiet q;
        o = Out::LOGIC;
        what = e.what();
      } catch (const std::ios_base::failure& e) {
        heap::Quiet q;
        o = Out::IO;
        what = e.what();
      } catch (const DiskError& e) {
        heap::Quiet q;
        o = Out::IO;
        what = e.what();
      } catch (const cereal::Exception& e) {
        heap::Quiet q;
        o = Out::IO;
        what = e.what();
      } catch (const std::exception& e) {
        heap::Quiet q;
        o = Out::OTHER;
        what = e.what();
      } catch (const Stop&) {
        heap::disarmFault();
        heap::deadlineOff();
        throw;
      } catch (...) {
        heap::Quiet q;
        o = Out::OTHER;
        what = "not a std::exception";
      }
      heap::deadlineOff();
    }
    bool fired = arm && heap::disarmFault();
    arm = false;
    if (fired) {
      count("fault.alloc");
      if (o != Out::OK) {
        faulted = true;
        count("fault.alloc.failed-operation");
        log.event("  out of memory, retry");
        audit("C06");
        continue;
      }
      count("fault.alloc.absorbed");
      absorbed = true;
    }
    return o;
  }
}

template <typename Ring> static void auditRing(World& w, const char* tags, RingWorld<Ring>& rw, const void* x, const void* y) {
  for (auto& s : rw.M) {
    if (!s.p || &s == x || &s == y) continue;
    bool ok;
    { Loud l; ok = s.p->rank() == (exactreal::size)s.keys.size() && s.p->basis().size() == s.keys.size(); }
    if (!ok) fail(w, (std::string("C04 C05 ") + tags).c_str(), "module-changed", "a module changed its generators");
  }
  for (auto& s : rw.E) {
    if (!s.v || &s == x || &s == y) continue;
    bool ok;
    std::shared_ptr<const Module<Ring>> mod;
    std::vector<typename Ring::ElementClass> c;
    { Loud l; mod = s.v->module(); c = s.v->coefficients(); }
    // The representation may change (an extension to a larger module), the value must not.
    std::string t = std::string("C05 C15 ") + tags;
    if (mod != s.mod) { count("probe.representation-changed"); refresh(w, t.c_str(), s); continue; }
    ok = c.size() == s.coeffs.size();
    for (size_t i = 0; ok && i < c.size(); i++) ok = coef<Ring>(w, c[i]) == s.coeffs[i];
    { Loud l; c.clear(); c.shrink_to_fit(); }
    if (!ok) fail(w, t.c_str(), "bystander-changed", "an element changed that was not the target of the operation: E" + std::to_string(&s - rw.E));
  }
}
void World::audit(const char* tags, const void* x, const void* y) {
  for (auto& s : F)
    if (s.v && &s != x && &s != y && truth::dyOf(s.v->arf_t()) != s.m)
      fail(*this, (std::string("C11 ") + tags).c_str(), "bystander-changed", "F" + std::to_string(&s - F) + " is " + truth::dyOf(s.v->arf_t()).str() + " should be " + s.m.str());
  for (auto& s : B)
    if (s.v && &s != x && &s != y && !arb_equal(s.v->arb_t(), s.m.t))
      fail(*this, (std::string("C12 ") + tags).c_str(), "bystander-changed", "B" + std::to_string(&s - B) + " is " + truth::str(s.v->arb_t()) + " should be " + truth::str(s.m.t));
  auditRing(*this, tags, z, x, y);
  auditRing(*this, tags, q, x, y);
  auditRing(*this, tags, k, x, y);
}

boost::intrusive_ptr<const eantic::renf_class> World::field(int which) {
  which = (int)((unsigned)which % truth::fields.size());
  auto it = fieldCache.find(which);
  if (it != fieldCache.end()) return it->second;
  Loud l;
  boost::intrusive_ptr<const eantic::renf_class> p;
  if (which == 0) p = boost::intrusive_ptr<const eantic::renf_class>(&eantic::renf_class::make());
  else p = eantic::renf_class::make(truth::fields[which].minpoly, truth::fields[which].gen, truth::fields[which].emb, plan.get("embprec", 64));
  { heap::Quiet q; fieldCache[which] = p; }
  return p;
}

int fieldOf(World& w, const NumberField& K) {
  if (K.parameters->degree() == 1) return 0;
  for (size_t i = 1; i < truth::fields.size(); i++)
    if (*w.field((int)i) == *K.parameters) return (int)i;
  return -1;
}

template <> std::string ringName<IntegerRing>(World&, const IntegerRing&) { return "Z"; }
template <> std::string ringName<RationalField>(World&, const RationalField&) { return "Q"; }
template <> std::string ringName<NumberField>(World& w, const NumberField& K) { return "K" + std::to_string(fieldOf(w, K)); }

template <> truth::Coef coef<IntegerRing>(World&, const mpz_class& x) { return truth::Coef(mpq_class(x)); }
template <> truth::Coef coef<RationalField>(World&, const mpq_class& x) { return truth::Coef(x); }
template <> truth::Coef coef<NumberField>(World& w, const eantic::renf_elem_class& x) {
  if (x.is_rational()) return truth::Coef(static_cast<mpq_class>(x));
  int f = 0;
  if (x.parent().degree() != 1)
    for (size_t i = 1; i < truth::fields.size(); i++)
      if (*w.field((int)i) == x.parent()) f = (int)i;
  mpz_class den = x.den();
  std::vector<mpq_class> c;
  for (auto& n : x.num_vector()) {
    c.push_back(mpq_class(n, den));
    c.back().canonicalize();
  }
  return truth::Coef(f, c);
}
template <> mpz_class uncoef<IntegerRing>(World&, const truth::Coef& c, int) { return c.q().get_num(); }
template <> mpq_class uncoef<RationalField>(World&, const truth::Coef& c, int) { return c.q(); }
template <> eantic::renf_elem_class uncoef<NumberField>(World& w, const truth::Coef& c, int hint) {
  int f = c.rational() ? hint : c.f;
  auto K = w.field(f);
  if (c.rational()) return eantic::renf_elem_class(*K, c.q());
  return eantic::renf_elem_class(*K, c.c);
}

template <typename Ring> void refresh(World& w, const char* tags, ESlot<Ring>& s) {
  std::shared_ptr<const Module<Ring>> mod;
  std::vector<typename Ring::ElementClass> c;
  { Loud l; mod = s.v->module(); c = s.v->coefficients(); }
  if (mod != s.mod) {
    s.mod = mod;
    s.keys.clear();
    for (auto& g : mod->basis()) s.keys.push_back(describe(g));
  }
  s.hash.reset();
  if (c.size() != s.keys.size()) fail(w, tags, "coefficients", "an element has " + to_s(c.size()) + " coefficients over " + to_s(s.keys.size()) + " generators");
  s.coeffs.clear();
  truth::Elem e;
  for (size_t i = 0; i < c.size(); i++) {
    s.coeffs.push_back(coef<Ring>(w, c[i]));
    if (!s.coeffs.back().rational() && "K" + std::to_string(s.coeffs.back().f) != ringName(w, mod->ring()))
      fail(w, tags, "coefficient-ring", "a coefficient in K" + std::to_string(s.coeffs.back().f) + " over " + ringName(w, mod->ring()));
    truth::addGen(e, s.keys[i], s.coeffs[i]);
  }
  { Loud l; c.clear(); c.shrink_to_fit(); }
  if (e != s.m) fail(w, tags, "value", "result is " + e.str() + " but should be " + s.m.str());
}
// Objects are unique; what is read from an archive is moreover the object that is in use already.
static std::string identityTags(World& w, const char* tags) { return w.op && w.op->name == "w.load" ? std::string("C04 ") + tags : "C04"; }
template <typename Ring> void setElement(World& w, const char* tags, ESlot<Ring>& s, Element<Ring>&& e, const truth::Elem& expected) {
  { Loud l; s.v.reset(); s.mod.reset(); s.v.emplace(std::move(e)); }
  s.m = expected;
  refresh(w, tags, s);
}
template <typename Ring> void setModule(World& w, const char* tags, MSlot<Ring>& s, std::shared_ptr<const Module<Ring>> p, const std::vector<std::string>& expected, const std::string& ring) {
  std::vector<std::string> keys;
  if (!p) fail(w, tags, "null", "no module was returned");
  for (auto& g : p->basis()) keys.push_back(describe(g));
  std::multiset<std::string> a(keys.begin(), keys.end()), b(expected.begin(), expected.end());
  auto join = [](const std::multiset<std::string>& x) { std::string s; for (auto& y : x) s += y + " "; return s; };
  if (a != b) fail(w, tags, "generators", "module has generators " + join(a) + "but should have " + join(b));
  std::string r = ringName(w, p->ring());
  if (r != ring) fail(w, tags, "ring", "module is over " + r + " but should be over " + ring);
  auto& rw = w.ring<Ring>();
  auto check = [&](const std::shared_ptr<const Module<Ring>>& other, const std::vector<std::string>& otherKeys, const std::string& otherRing) {
    if (!other) return;
    std::multiset<std::string> c(otherKeys.begin(), otherKeys.end());
    bool same = c == a && otherRing == r;
    if (same) count("probe.module-identity");
    if (same != (other == p)) fail(w, identityTags(w, tags).c_str(), "module-identity", same ? "two objects for the module " + join(a) : "one object for modules " + join(a) + "/ " + join(c));
    bool eq;
    { Loud l; eq = *other == *p; }
    if (eq != same) fail(w, "C04", "module-equality", "modules " + join(a) + "/ " + join(c) + "compare as " + (eq ? "equal" : "different"));
  };
  for (auto& o : rw.M) if (&o != &s) check(o.p, o.keys, o.ring);
  for (auto& o : rw.E) if (o.v) check(o.mod, o.keys, ringName(w, o.mod->ring()));
  { Loud l; s.p = p; p.reset(); }
  s.keys = keys;
  s.ring = ring;
}
#define INSTANTIATE(R)                                                                                       \
  template void refresh<R>(World&, const char*, ESlot<R>&);                                                  \
  template void setElement<R>(World&, const char*, ESlot<R>&, Element<R>&&, const truth::Elem&);             \
  template void setModule<R>(World&, const char*, MSlot<R>&, std::shared_ptr<const Module<R>>, const std::vector<std::string>&, const std::string&);
INSTANTIATE(IntegerRing)
INSTANTIATE(RationalField)
INSTANTIATE(NumberField)

// A number is recognised by what it writes to an archive.  When that is not what it should be, either the number
// or what is written of it is wrong.
const char* blame(const char* tags, const Real& p, const std::string& expected) {
  try {
    std::optional<Arf> x;
    {
      Loud l;
      x.emplace(p->arf(128));
    }
    truth::Ball is, should = truth::eval(expected, 256);
    arb_set_arf(is.t, x->arf_t());
    // (up to a few of the last digits)
    mag_t error;
    mag_init(error);
    arf_get_mag(error, x->arf_t());
    mag_mul_2exp_si(error, error, -100);
    arb_add_error_mag(is.t, error);
    mag_clear(error);
    const bool agree = arb_overlaps(is.t, should.t);
    Loud l;
    x.reset();
    return agree ? "C07 C09" : tags;
  } catch (const std::exception&) {
    return tags;
  }
}
void setReal(World& w, const char* tags, RSlot& s, Real p, const std::string& expected) {
  if (!p) fail(w, tags, "null", "no real was returned");
  std::string key = describe(p);
  if (!expected.empty() && key != expected) fail(w, blame(tags, p, expected), "which-real", "got " + key + " but asked for " + expected);
  // identity with everything that is alive
  auto check = [&](const Real& other, const std::string& okey) {
    if (!other) return;
    bool same = okey == key;
    if (same) count("probe.real-identity");
    if (same != (other == p)) fail(w, identityTags(w, tags).c_str(), "real-identity", same ? "two objects for the real " + key : "one object for the reals " + key + " and " + okey);
    bool eq;
    { Loud l; eq = *other == *p; }
    if (eq != same) fail(w, "C03 C04", "real-equality", key + " and " + okey + " compare as " + (eq ? "equal" : "different"));
  };
  for (auto& o : w.R) if (&o != &s) check(o.p, o.key);
  auto checkBasis = [&](const auto& mod, const std::vector<std::string>& keys) {
    if (!mod) return;
    for (size_t i = 0; i < keys.size() && i < mod->basis().size(); i++) check(mod->basis()[i], keys[i]);
  };
  for (auto& o : w.z.M) checkBasis(o.p, o.keys);
  for (auto& o : w.q.M) checkBasis(o.p, o.keys);
  for (auto& o : w.k.M) checkBasis(o.p, o.keys);
  for (auto& o : w.z.E) checkBasis(o.mod, o.keys);
  for (auto& o : w.q.E) checkBasis(o.mod, o.keys);
  for (auto& o : w.k.E) checkBasis(o.mod, o.keys);
  { Loud l; s.p = std::move(p); }
  s.key = key;
}
void setFloat(World& w, const char* tags, FSlot& s, const Arf& v, const truth::Dy& expected) {
  auto d = truth::dyOf(v.arf_t());
  if (d != expected) fail(w, tags, "value", "result is " + d.str() + " but should be " + expected.str());
  { Loud l; s.v.emplace(v); }
  s.m = expected;
  if (truth::dyOf(s.v->arf_t()) != expected) fail(w, tags, "copy", "copying a float changed its value");
}
void setBall(World& w, BSlot& s, const Arb& v) {
  truth::Ball m;
  arb_set(m.t, v.arb_t());
  { Loud l; s.v.emplace(v); }
  s.m = m;
  if (!arb_equal(s.v->arb_t(), m.t)) fail(w, "C12", "copy", "copying a ball changed its value");
}

// ------------------------------------------------------------------- streams
Sink::int_type Sink::overflow(int_type c) {
  char ch = traits_type::to_char_type(c);
  return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
}
std::streamsize Sink::xsputn(const char* s, std::streamsize n) {
  heap::Quiet q;
  std::streamsize take = n;
  if (fault.mode >= 2 && (int64_t)data.size() + n > fault.at) {
    take = std::max<int64_t>(0, fault.at - (int64_t)data.size());
    fired = true;
  }
  data.append(s, take);
  if (take < n && fault.mode == 3) throw DiskError();
  return take;
}
Source::int_type Source::underflow() {
  if (fault.mode >= 2 && (int64_t)pos >= fault.at) {
    fired = true;
    if (fault.mode == 3) throw DiskError();
    return traits_type::eof();
  }
  if (pos >= data.size()) return traits_type::eof();
  if (fault.mode == 0) {
    setg(&data[0], &data[0] + pos, &data[0] + data.size());
    pos = data.size();
    return traits_type::to_int_type(*gptr());
  }
  // one byte at a time: the smallest possible reads
  buf[0] = data[pos++];
  setg(buf, buf, buf + 1);
  return traits_type::to_int_type(buf[0]);
}
std::streamsize Source::xsgetn(char* s, std::streamsize n) {
  std::streamsize got = 0;
  while (got < n) {
    if (gptr() < egptr()) { s[got++] = *gptr(); gbump(1); continue; }
    if (underflow() == traits_type::eof()) break;
  }
  return got;
}

// ------------------------------------------------------------------- durable
std::string dump(const Durable& d) {
  auto blob = [](const std::string& s) { return std::to_string(s.size()) + " " + s + "\n"; };
  std::string r = std::to_string(d.files.size()) + "\n";
  for (auto& f : d.files) {
    r += std::to_string(f.first) + " " + std::to_string(f.second.kind) + " " + std::to_string(f.second.acknowledged) + " " + std::to_string(f.second.damaged) + " " + std::to_string(f.second.malformed) + "\n";
    r += blob(f.second.bytes) + blob(f.second.intended);
    r += std::to_string(f.second.manifest.size()) + "\n";
    for (auto& m : f.second.manifest) r += blob(m);
  }
  r += std::to_string(d.memo.size()) + "\n";
  for (auto& m : d.memo) r += blob(m.first) + blob(m.second);
  return r;
}
Durable undump(const std::string& s) {
  Durable d;
  std::istringstream in(s);
  auto blob = [&]() {
    size_t n = 0;
    in >> n;
    in.get();
    std::string r(n, '\0');
    in.read(&r[0], n);
    in.get();
    return r;
  };
  size_t n = 0;
  in >> n;
  for (size_t i = 0; i < n; i++) {
    int id;
    Durable::File f;
    in >> id >> f.kind >> f.acknowledged >> f.damaged >> f.malformed;
    f.bytes = blob();
    f.intended = blob();
    size_t m = 0;
    in >> m;
    for (size_t j = 0; j < m; j++) f.manifest.push_back(blob());
    d.files[id] = f;
  }
  n = 0;
  in >> n;
  for (size_t i = 0; i < n; i++) {
    auto k = blob();
    d.memo[k] = blob();
  }
  return d;
}

// ----------------------------------------------------------------------- run
void World::run() {
  int at = 0;
  for (opIndex = 0; opIndex < plan.ops.size(); opIndex++) {
    op = &plan.ops[opIndex];
    if (op->name == "crash") {
      at++;
      continue;
    }
    if (at != life || op->thread != thread) continue;
    auto it = handlers().find(op->name);
    if (it == handlers().end()) {
      fprintf(stderr, "unknown operation %s\n", op->name.c_str());
      _exit(96);
    }
    auto before = heap::stats();
    auto known = verif_shim::knobs();
    progress(opIndex, op->text());
    what.clear();
    faulted = false;
    it->second(*this);
    auto after = heap::stats();
    log.event(op->text() + " @" + std::to_string(after.ticks - before.ticks) + " " + std::to_string(after.liveBlocks));
    // What kind of step was this?
    auto& k = verif_shim::knobs();
    uint64_t sig = hashString(op->name) * 64 + (k.hits != known.hits) + 2 * (k.creates != known.creates) + 4 * (k.releases != known.releases) + 8 * faulted + 16 * !what.empty() + 32 * (k.evictions != known.evictions);
    mark(mix(prevSig, sig));
    prevSig = sig;
    audit("");
  }
  op = nullptr;
  opIndex = plan.ops.size();
}

void crossCheck(const std::vector<World*>& worlds) {
  std::map<std::string, std::pair<const void*, int>> objects;
  std::map<const void*, std::string> keys;
  std::string text;
  auto check = [&](int thread, const void* p, const std::string& key) {
    if (!p) return;
    auto at = objects.find(key);
    if (at == objects.end()) objects[key] = {p, thread};
    else {
      if (at->second.second != thread) count("probe.cross-thread-identity");
      if (at->second.first != p) report("C14 C04", "cross-thread-identity", "threads " + to_s(at->second.second) + " and " + to_s(thread) + " hold two objects for " + key);
    }
    auto k = keys.find(p);
    if (k == keys.end()) keys[p] = key;
    else if (k->second != key) report("C14 C04", "cross-thread-identity", "one object for " + key + " and " + k->second);
  };
  auto module = [&](int t, const auto& mod, const std::vector<std::string>& ks, const std::string& ring) {
    if (!mod) return;
    std::multiset<std::string> sorted(ks.begin(), ks.end());
    std::string key = ring;
    for (auto& x : sorted) key += " " + x;
    check(t, mod.get(), key);
    for (size_t i = 0; i < ks.size() && i < mod->basis().size(); i++) check(t, mod->basis()[i].get(), ks[i]);
  };
  for (size_t i = 0; i < worlds.size(); i++) {
    World* w = worlds[i];
    if (!w) continue;
    for (auto& s : w->R) check((int)i, s.p.get(), s.key);
    for (auto& s : w->z.M) module((int)i, s.p, s.keys, s.ring);
    for (auto& s : w->q.M) module((int)i, s.p, s.keys, s.ring);
    for (auto& s : w->z.E) if (s.v) module((int)i, s.mod, s.keys, ringName(*w, s.mod->ring()));
    for (auto& s : w->q.E) if (s.v) module((int)i, s.mod, s.keys, ringName(*w, s.mod->ring()));
  }
}

}  // namespace sim
