// Stand-in for the "unique-factory" submodule (empty in this checkout):
// a registry handing out one shared object per key while it is alive.
//
// The simulator owns its policy knobs (see verif_shim below): how many values a
// KeepSetAlive policy retains, and how it evicts.  Entries hold a copy of the
// key taken after creation (creating a value may rewrite its key), are unlinked
// by the deleter of the value, and the registries themselves are never
// destroyed (no static destruction order).
//
// In thread simulations (VERIF_THREADS), each registry has a mutex which is
// held while entries are looked up, inserted, evicted or unlinked, but not while
// values are created or destroyed.
#ifndef VERIF_SHIM_UNIQUE_FACTORY_HPP
#define VERIF_SHIM_UNIQUE_FACTORY_HPP
#include <cstddef>
#include <functional>
#include <list>
#include <memory>
#include <type_traits>
#ifdef VERIF_THREADS
#include <mutex>
#define VERIF_SHIM_LOCK(state) std::lock_guard<std::recursive_mutex> lock((state)->mutex)
#define VERIF_SHIM_COUNT(counter, n) __atomic_fetch_add(&verif_shim::knobs().counter, n, __ATOMIC_RELAXED)
#else
#define VERIF_SHIM_LOCK(state)
#define VERIF_SHIM_COUNT(counter, n) (verif_shim::knobs().counter += (n))
#endif

namespace verif_shim {
struct Knobs {
  // Capacity of KeepSetAlive; 0 means "as declared by the library".
  size_t keepAliveLimit = 0;
  // Eviction when full: false: drop the oldest value; true: drop everything.
  bool evictAll = false;
  // Number of entries in all registries (an observable for the simulator.)
  size_t entries = 0;
  // Number of registry hits, creations, releases and evictions.
  size_t hits = 0, creates = 0, releases = 0, evictions = 0;
  struct Flusher {
    void (*flush)(void*);
    void* self;
    Flusher* next;
  };
  Flusher* flushers = nullptr;
  // Drop everything that is only kept alive by a keep-alive policy.
  void flush() {
#ifdef VERIF_THREADS
    auto* f = __atomic_load_n(&flushers, __ATOMIC_ACQUIRE);
#else
    auto* f = flushers;
#endif
    for (; f; f = f->next) f->flush(f->self);
  }
};
inline Knobs& knobs() {
  static Knobs k;
  return k;
}
}  // namespace verif_shim

namespace unique_factory {
struct KeepNothingAlive {
  template <typename V> void operator()(const std::shared_ptr<V>&, std::list<std::shared_ptr<V>>&) {}
  template <typename V> void flush(std::list<std::shared_ptr<V>>&) {}
};

template <typename Value, size_t limit>
struct KeepSetAlive {
  // What is evicted is to be destroyed by the caller.
  void operator()(const std::shared_ptr<Value>& value, std::list<std::shared_ptr<Value>>& evicted) {
    if (!alive.empty() && alive.back() == value) return;
    for (auto& v : alive)
      if (v == value) return;
    // (a limit which is so big that it is hardly ever reached is not lowered)
    const size_t cap = verif_shim::knobs().keepAliveLimit && limit <= 65536 ? verif_shim::knobs().keepAliveLimit : limit;
    alive.push_back(value);
    if (alive.size() > cap) {
      VERIF_SHIM_COUNT(evictions, 1);
      if (verif_shim::knobs().evictAll)
        evicted.swap(alive);
      else
        evicted.splice(evicted.begin(), alive, alive.begin());
    }
  }
  void flush(std::list<std::shared_ptr<Value>>& evicted) { evicted.swap(alive); }
  std::list<std::shared_ptr<Value>> alive;
};

template <typename Key, typename Value, typename KeepAlive = KeepNothingAlive, typename Hash = std::hash<Key>>
class UniqueFactory {
  struct Node {
    Key key;
    size_t hash;
    std::weak_ptr<Value> value;
    Node* next;
  };
  static constexpr size_t BUCKETS = 509;
  struct State {
    Node* buckets[BUCKETS] = {};
    KeepAlive keep;
#ifdef VERIF_THREADS
    std::recursive_mutex mutex;
#endif

    void flush() {
      std::list<std::shared_ptr<Value>> evicted;
      VERIF_SHIM_LOCK(this);
      keep.flush(evicted);
    }
    void unlink(Node* node) noexcept {
      VERIF_SHIM_LOCK(this);
      Node** at = &buckets[node->hash % BUCKETS];
      while (*at && *at != node) at = &(*at)->next;
      if (!*at) return;
      *at = node->next;
      VERIF_SHIM_COUNT(entries, -1);
      VERIF_SHIM_COUNT(releases, 1);
    }
  };
  struct Deleter {
    State* state;
    Node* node;
    void operator()(Value* v) const noexcept {
      state->unlink(node);
      delete v;
      delete node;
    }
  };

 public:
  UniqueFactory() : state(new State) {
    auto* flusher = new verif_shim::Knobs::Flusher{[](void* s) { static_cast<State*>(s)->flush(); }, state, nullptr};
#ifdef VERIF_THREADS
    auto& head = verif_shim::knobs().flushers;
    flusher->next = __atomic_load_n(&head, __ATOMIC_ACQUIRE);
    while (!__atomic_compare_exchange_n(&head, &flusher->next, flusher, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
    }
#else
    flusher->next = verif_shim::knobs().flushers;
    verif_shim::knobs().flushers = flusher;
#endif
  }
  UniqueFactory(const UniqueFactory&) = delete;

  template <typename Create>
  std::shared_ptr<Value> get(const Key& key, Create&& create) {
    // (destroyed after the lock has been released)
    std::list<std::shared_ptr<Value>> evicted;
    {
      VERIF_SHIM_LOCK(state);
      if (auto found = lookup(key, Hash{}(key), evicted)) return found;
    }

    std::unique_ptr<Value> created;
    if constexpr (std::is_invocable_v<Create, const Key&>)
      created.reset(create(key));
    else
      created.reset(create());

    const size_t hash = Hash{}(key);
    std::unique_ptr<Node> node(new Node{key, hash, {}, nullptr});
    State* s = state;
    // If there is no memory for the control block, shared_ptr calls the deleter.
    Deleter deleter{s, node.get()};
    node.release();
    std::shared_ptr<Value> value(created.release(), deleter);
    Node* n = deleter.node;
    n->value = value;
    VERIF_SHIM_LOCK(s);
#ifdef VERIF_THREADS
    // Somebody else may have been faster.
    if (auto found = lookup(n->key, hash, evicted)) return found;
#endif
    n->next = s->buckets[hash % BUCKETS];
    s->buckets[hash % BUCKETS] = n;
    VERIF_SHIM_COUNT(entries, 1);
    VERIF_SHIM_COUNT(creates, 1);
    s->keep(value, evicted);
    return value;
  }

 private:
  std::shared_ptr<Value> lookup(const Key& key, size_t hash, std::list<std::shared_ptr<Value>>& evicted) {
    for (Node* n = state->buckets[hash % BUCKETS]; n; n = n->next) {
      if (n->hash != hash || !(n->key == key)) continue;
      auto value = n->value.lock();
      if (!value) continue;
      VERIF_SHIM_COUNT(hits, 1);
      state->keep(value, evicted);
      return value;
    }
    return nullptr;
  }

  State* state;
};
}  // namespace unique_factory
#endif
