// The container that holds blocks, dictionaries and scratch buffers: all
// sequences of operations up to a depth, and every operation in every
// reachable state of two containers up to a size, compared with std::vector.
// Memory comes from an allocator that never reuses memory, checks what is
// given back to it, surrounds memory with guards and can run out of memory.
#include "mc.h"
#include "scenarios.h"

#include <uvector.h>

#include <complex>
#include <cstring>
#include <limits>
#include <list>
#include <optional>
#include <set>
#include <sstream>

namespace {

// ---- Memory ----

constexpr size_t kArena = 1 << 21;
constexpr size_t kGuard = 32;
constexpr unsigned char kGuardByte = 0x5a;
constexpr unsigned char kFresh = 0xa5;
constexpr unsigned char kFreed = 0xdd;

class Heap {
 public:
  void reset() {
    _used = 0;
    _blocks.clear();
    _live = 0;
    _nAllocations = 0;
    _failNext = false;
    _problem.clear();
  }
  void* allocate(size_t bytes, size_t n, int id) {
    if (_failNext) {
      _failNext = false;
      _failed = true;
      throw std::bad_alloc();
    }
    const size_t total = (bytes + 2 * kGuard + 15) / 16 * 16;
    if (_used + total > kArena) violation("container", "asks for far too much memory");
    unsigned char* p = _arena + _used;
    _used += total;
    std::memset(p, kGuardByte, total);
    std::memset(p + kGuard, kFresh, bytes);
    _blocks.push_back(Block{p + kGuard, bytes, n, id, true});
    ++_live;
    ++_nAllocations;
    return p + kGuard;
  }
  void deallocate(void* p, size_t n, int id) {
    for (Block& b : _blocks) {
      if (b.p != p) continue;
      if (!b.live) return problem("gives memory back twice");
      if (b.n != n) return problem("gives memory for " + std::to_string(n) + " elements back that was asked for " + std::to_string(b.n));
      if (b.id != id) return problem("gives memory back to another allocator");
      b.live = false;
      check(b);
      std::memset(b.p, kFreed, b.bytes);
      --_live;
      return;
    }
    problem("gives back memory that it did not ask for");
  }
  // Guards, and memory that was given back
  void check() {
    for (const Block& b : _blocks) {
      check(b);
      if (!b.live)
        for (size_t i = 0; i != b.bytes; ++i)
          if (b.p[i] != kFreed) return problem("writes to memory that was given back");
    }
  }
  const std::string& problem() const { return _problem; }
  size_t live() const { return _live; }
  size_t nAllocations() const { return _nAllocations; }
  void failNext(bool f) {
    _failNext = f;
    _failed = false;
  }
  bool failed() const { return _failed; }

 private:
  struct Block {
    unsigned char* p;
    size_t bytes, n;
    int id;
    bool live;
  };
  void check(const Block& b) {
    for (size_t i = 0; i != kGuard; ++i)
      if (b.p[-1 - long(i)] != kGuardByte || b.p[b.bytes + i] != kGuardByte)
        return problem("writes outside of its memory");
  }
  void problem(const std::string& text) {
    if (_problem.empty()) _problem = text;
  }
  alignas(16) unsigned char _arena[kArena];
  size_t _used = 0, _live = 0, _nAllocations = 0;
  bool _failNext = false, _failed = false;
  std::vector<Block> _blocks;
  std::string _problem;
};
Heap theHeap;

// Which: 0: all allocators are equal, 1: differ and stay with the container,
// 2: differ and go along with the contents
template <typename T, int Which>
struct Memory {
  typedef T value_type;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef T& reference;
  typedef const T& const_reference;
  typedef std::size_t size_type;
  typedef std::ptrdiff_t difference_type;
  typedef std::integral_constant<bool, Which == 0> is_always_equal;
  typedef std::integral_constant<bool, Which == 2> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, Which == 2> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, Which == 2> propagate_on_container_swap;
  template <typename U>
  struct rebind {
    typedef Memory<U, Which> other;
  };
  Memory(int i = 0) noexcept : id(Which == 0 ? 0 : i) {}
  template <typename U>
  Memory(const Memory<U, Which>& other) noexcept : id(other.id) {}
  T* allocate(size_t n) { return static_cast<T*>(theHeap.allocate(n * sizeof(T), n, id)); }
  void deallocate(T* p, size_t n) noexcept { theHeap.deallocate(p, n, id); }
  int id;
};
template <typename T, int Which>
bool operator==(const Memory<T, Which>& a, const Memory<T, Which>& b) { return a.id == b.id; }
template <typename T, int Which>
bool operator!=(const Memory<T, Which>& a, const Memory<T, Which>& b) { return a.id != b.id; }

// ---- Elements ----

template <typename T>
T make(int k) { return T(k); }
template <>
unsigned char make<unsigned char>(int k) { return k % 251; }
template <>
std::complex<float> make<std::complex<float>>(int k) { return std::complex<float>(k, -0.5f * k); }
struct Sample {
  Sample() = default;
  Sample(int k) : a(k), b(short(k)), c{char(k), char(k + 1), char(k + 2)} {}
  bool operator==(const Sample& o) const {
    return a == o.a && b == o.b && std::memcmp(c, o.c, 3) == 0;
  }
  double a;
  short b;
  char c[3];
};

// ---- Two containers and their reference ----

template <typename T, int Which>
class Pair {
 public:
  typedef aocommon::UVector<T, Memory<T, Which>> V;
  typedef std::vector<T> R;
  static constexpr bool kOrdered = std::is_arithmetic<T>::value;

  struct Op {
    std::string name;
    size_t nNew;      // most elements that it adds
    std::function<bool(Pair&)> run;  // false: not applicable
  };

  Pair(int idA, int idB) {
    theHeap.reset();
    idOf[0] = Which == 0 ? 0 : idA;
    idOf[1] = Which == 0 ? 0 : idB;
    a.emplace(Memory<T, Which>(idA));
    b.emplace(Memory<T, Which>(idB));
  }

  std::optional<V> a, b;
  R ra, rb;
  int idOf[2];
  int next = 1;

  T fresh() { return make<T>(next++); }
  // The documentation leaves elements uninitialised
  void fill(size_t begin, size_t end) {
    for (size_t i = begin; i != end; ++i) {
      const T value = fresh();
      (*a)[i] = value;
      ra[i] = value;
    }
  }

  // Empty: everything as expected
  std::string problem() {
    theHeap.check();
    if (!theHeap.problem().empty()) return theHeap.problem();
    std::string text = problem(*a, ra, idOf[0]);
    if (text.empty()) {
      text = problem(*b, rb, idOf[1]);
      if (!text.empty()) text += " (in the other container)";
    }
    if (!text.empty()) return text;
    if ((*a == *b) != (ra == rb) || (*a != *b) == (ra == rb)) return "compares wrongly for equality";
    if constexpr (kOrdered) {
      if ((*a < *b) != (ra < rb) || (*a <= *b) != (ra <= rb) || (*a > *b) != (ra > rb) ||
          (*a >= *b) != (ra >= rb))
        return "compares wrongly";
    }
    return std::string();
  }

  static std::string problem(V& v, const R& r, int id) {
    const V& c = v;
    std::ostringstream o;
    if (c.size() != r.size()) {
      o << "has size " << long(c.size()) << " instead of " << r.size();
      return o.str();
    }
    if (c.capacity() < c.size()) return "has a capacity less than its size";
    if (c.empty() != r.empty() || size_t(c.end() - c.begin()) != r.size() ||
        size_t(v.end() - v.begin()) != r.size() || size_t(c.cend() - c.cbegin()) != r.size() ||
        v.rend() - v.rbegin() != long(r.size()) || c.crend() - c.crbegin() != long(r.size()))
      return "has a wrong number of elements between its iterators";
    if (c.max_size() < r.size()) return "has a wrong maximum size";
    for (size_t i = 0; i != r.size(); ++i) {
      if (!(c[i] == r[i])) {
        o << "element " << i << " of " << r.size() << " differs";
        return o.str();
      }
      if (&v[i] != &c[i] || &v.at(i) != &c[i] || &c.at(i) != &c[i] || v.data() + i != &c[i] ||
          c.data() + i != &c[i] || v.begin() + i != &c[i] || c.cbegin() + i != &c[i] ||
          &*(v.rbegin() + (r.size() - 1 - i)) != &c[i] || &*(c.rbegin() + (r.size() - 1 - i)) != &c[i] ||
          &*(c.crbegin() + (r.size() - 1 - i)) != &c[i])
        return "its accessors do not agree";
    }
    if (!r.empty() && (&c.front() != &c[0] || &v.front() != &c[0] ||
                       &c.back() != &c[r.size() - 1] || &v.back() != &c[r.size() - 1]))
      return "front() or back() is a wrong element";
    if (c.get_allocator().id != id) return "has a wrong allocator";
    return std::string();
  }
  void finish() {
    a.reset();
    b.reset();
    theHeap.check();
    if (theHeap.problem().empty() && theHeap.live() != 0) bad = "does not give its memory back";
    else bad = theHeap.problem();
  }
  std::string bad;  // problem found by an operation
  void require(bool condition, const char* text) {
    if (!condition && bad.empty()) bad = text;
  }
  // The value that was returned and the one of the reference
  void returned(typename V::iterator it, typename R::iterator ref) {
    require(it - a->begin() == ref - ra.begin(), "returns a wrong position");
  }
  // Operations that fit keep elements where they are
  template <typename F>
  void inPlace(size_t needed, F f) {
    const T* before = a->data();
    const size_t capacity = a->capacity(), n = theHeap.nAllocations();
    f();
    if (needed <= capacity) {
      require(a->data() == before && a->capacity() == capacity, "moves its elements although there is space");
      require(theHeap.nAllocations() == n, "allocates although there is space");
    }
  }

  static std::vector<Op> operations();
};

template <typename T, int Which>
std::vector<typename Pair<T, Which>::Op> Pair<T, Which>::operations() {
  typedef Pair P;
  typedef Memory<T, Which> M;
  std::vector<Op> l;
  auto add = [&](const std::string& name, size_t nNew, std::function<bool(P&)> f) {
    l.push_back(Op{name, nNew, std::move(f)});
  };
  // -- at the end
  add("push_back(value)", 1, [](P& p) {
    const T x = p.fresh();
    p.inPlace(p.ra.size() + 1, [&] { p.a->push_back(x); });
    p.ra.push_back(x);
    return true;
  });
  add("push_back(moved value)", 1, [](P& p) {
    T x = p.fresh();
    p.ra.push_back(x);
    p.inPlace(p.ra.size(), [&] { p.a->push_back(std::move(x)); });
    return true;
  });
  add("push_back(front())", 1, [](P& p) {
    if (p.ra.empty()) return false;
    p.inPlace(p.ra.size() + 1, [&] { p.a->push_back(p.a->front()); });
    p.ra.push_back(p.ra.front());
    return true;
  });
  add("emplace_back(value)", 1, [](P& p) {
    const T x = p.fresh();
    p.inPlace(p.ra.size() + 1, [&] {
      T& r = p.a->emplace_back(x);
      p.require(&r == &p.a->back(), "emplace_back() returns a wrong element");
    });
    p.ra.push_back(x);
    return true;
  });
  add("emplace_back(back())", 1, [](P& p) {
    if (p.ra.empty()) return false;
    p.a->emplace_back(p.a->back());
    p.ra.push_back(p.ra.back());
    return true;
  });
  add("pop_back()", 0, [](P& p) {
    if (p.ra.empty()) return false;
    p.inPlace(0, [&] { p.a->pop_back(); });
    p.ra.pop_back();
    return true;
  });
  for (size_t n : {0, 1, 2, 3}) {
    const std::string ns = std::to_string(n);
    add("push_back(" + ns + ", value)", n, [n](P& p) {
      const T x = p.fresh();
      p.inPlace(p.ra.size() + n, [&] { p.a->push_back(n, x); });
      p.ra.insert(p.ra.end(), n, x);
      return true;
    });
    add("push_back(list of " + ns + ")", n, [n](P& p) {
      std::list<T> x;
      for (size_t i = 0; i != n; ++i) x.push_back(p.fresh());
      p.inPlace(p.ra.size() + n, [&] { p.a->push_back(x.begin(), x.end()); });
      p.ra.insert(p.ra.end(), x.begin(), x.end());
      return true;
    });
    add("push_back_uninitialized(" + ns + ")", n, [n](P& p) {
      p.inPlace(p.ra.size() + n, [&] { p.a->push_back_uninitialized(n); });
      p.ra.resize(p.ra.size() + n);
      if (p.a->size() == p.ra.size()) p.fill(p.ra.size() - n, p.ra.size());
      return true;
    });
  }
  add("push_back(2, front())", 2, [](P& p) {
    if (p.ra.empty()) return false;
    p.a->push_back(2, p.a->front());
    p.ra.insert(p.ra.end(), 2, T(p.ra.front()));
    return true;
  });
  add("push_back({})", 0, [](P& p) {
    p.inPlace(0, [&] { p.a->push_back(std::initializer_list<T>{}); });
    return true;
  });
  add("push_back({value, value, value})", 3, [](P& p) {
    const T x = p.fresh(), y = p.fresh(), z = p.fresh();
    p.inPlace(p.ra.size() + 3, [&] { p.a->push_back({x, y, z}); });
    p.ra.insert(p.ra.end(), {x, y, z});
    return true;
  });
  add("push_back(other)", 6, [](P& p) {
    p.inPlace(p.ra.size() + p.rb.size(), [&] { p.a->push_back(p.b->cbegin(), p.b->cend()); });
    p.ra.insert(p.ra.end(), p.rb.begin(), p.rb.end());
    return true;
  });
  add("push_back(int, int)", 2, [](P& p) {
    const int x = p.next++ % 100;
    p.inPlace(p.ra.size() + 2, [&] { p.a->push_back(2, x); });
    p.ra.insert(p.ra.end(), 2, T(x));
    return true;
  });
  // -- at a position
  for (int where : {0, 1, 2}) {
    const std::string ws = where == 0 ? "begin" : where == 1 ? "middle" : "end";
    auto at = [where](P& p) {
      return where == 0 ? size_t(0) : where == 1 ? (p.ra.size() + 1) / 2 : p.ra.size();
    };
    add("insert(" + ws + ", value)", 1, [at](P& p) {
      const T x = p.fresh();
      const size_t i = at(p);
      p.inPlace(p.ra.size() + 1, [&] {
        auto r = p.a->insert(p.a->cbegin() + i, x);
        p.returned(r, p.ra.insert(p.ra.begin() + i, x));
      });
      return true;
    });
    add("insert(" + ws + ", moved value)", 1, [at](P& p) {
      T x = p.fresh();
      const size_t i = at(p);
      auto ref = p.ra.insert(p.ra.begin() + i, x);
      p.inPlace(p.ra.size(), [&] { p.returned(p.a->insert(p.a->cbegin() + i, std::move(x)), ref); });
      return true;
    });
    for (bool last : {false, true}) {
      const std::string ls = last ? "back()" : "front()";
      add("insert(" + ws + ", " + ls + ")", 1, [at, last](P& p) {
        if (p.ra.empty()) return false;
        const size_t i = at(p);
        auto r = p.a->insert(p.a->cbegin() + i, last ? p.a->back() : p.a->front());
        const T x = last ? p.ra.back() : p.ra.front();
        p.returned(r, p.ra.insert(p.ra.begin() + i, x));
        return true;
      });
      add("insert(" + ws + ", 2, " + ls + ")", 2, [at, last](P& p) {
        if (p.ra.empty()) return false;
        const size_t i = at(p);
        const T& element = last ? p.a->back() : p.a->front();
        auto r = p.a->insert(p.a->cbegin() + i, size_t(2), element);
        const T x = last ? p.ra.back() : p.ra.front();
        p.returned(r, p.ra.insert(p.ra.begin() + i, 2, x));
        return true;
      });
      add("emplace(" + ws + ", " + ls + ")", 1, [at, last](P& p) {
        if (p.ra.empty()) return false;
        const size_t i = at(p);
        auto r = p.a->emplace(p.a->cbegin() + i, last ? p.a->back() : p.a->front());
        const T x = last ? p.ra.back() : p.ra.front();
        p.returned(r, p.ra.insert(p.ra.begin() + i, x));
        return true;
      });
    }
    add("emplace(" + ws + ", value)", 1, [at](P& p) {
      const T x = p.fresh();
      const size_t i = at(p);
      p.inPlace(p.ra.size() + 1, [&] {
        auto r = p.a->emplace(p.a->cbegin() + i, x);
        p.returned(r, p.ra.insert(p.ra.begin() + i, x));
      });
      return true;
    });
    for (size_t n : {0, 1, 2, 3}) {
      const std::string ns = std::to_string(n);
      add("insert(" + ws + ", " + ns + ", value)", n, [at, n](P& p) {
        const T x = p.fresh();
        const size_t i = at(p);
        p.inPlace(p.ra.size() + n, [&] {
          auto r = p.a->insert(p.a->cbegin() + i, n, x);
          p.returned(r, p.ra.insert(p.ra.begin() + i, n, x));
        });
        return true;
      });
      add("insert(" + ws + ", list of " + ns + ")", n, [at, n](P& p) {
        std::list<T> x;
        for (size_t k = 0; k != n; ++k) x.push_back(p.fresh());
        const size_t i = at(p);
        p.inPlace(p.ra.size() + n, [&] {
          auto r = p.a->insert(p.a->cbegin() + i, x.begin(), x.end());
          p.returned(r, p.ra.insert(p.ra.begin() + i, x.begin(), x.end()));
        });
        return true;
      });
      add("insert_uninitialized(" + ws + ", " + ns + ")", n, [at, n](P& p) {
        const size_t i = at(p);
        p.inPlace(p.ra.size() + n, [&] {
          auto r = p.a->insert_uninitialized(p.a->cbegin() + i, n);
          p.returned(r, p.ra.insert(p.ra.begin() + i, n, T()));
        });
        if (p.a->size() == p.ra.size()) p.fill(i, i + n);
        return true;
      });
    }
    add("insert(" + ws + ", {value, value})", 2, [at](P& p) {
      const T x = p.fresh(), y = p.fresh();
      const size_t i = at(p);
      p.inPlace(p.ra.size() + 2, [&] {
        auto r = p.a->insert(p.a->cbegin() + i, {x, y});
        p.returned(r, p.ra.insert(p.ra.begin() + i, {x, y}));
      });
      return true;
    });
    add("insert(" + ws + ", other)", 6, [at](P& p) {
      const size_t i = at(p);
      p.inPlace(p.ra.size() + p.rb.size(), [&] {
        auto r = p.a->insert(p.a->cbegin() + i, p.b->rbegin(), p.b->rend());
        p.returned(r, p.ra.insert(p.ra.begin() + i, p.rb.rbegin(), p.rb.rend()));
      });
      return true;
    });
    add("insert(" + ws + ", int, int)", 2, [at](P& p) {
      const int x = p.next++ % 100;
      const size_t i = at(p);
      auto r = p.a->insert(p.a->cbegin() + i, 2, x);
      p.returned(r, p.ra.insert(p.ra.begin() + i, size_t(2), T(x)));
      return true;
    });
    add("erase(" + ws + ")", 0, [at](P& p) {
      const size_t i = at(p);
      if (i >= p.ra.size()) return false;
      p.inPlace(0, [&] {
        auto r = p.a->erase(p.a->cbegin() + i);
        p.returned(r, p.ra.erase(p.ra.begin() + i));
      });
      return true;
    });
    for (int to : {0, 1, 2})
      add("erase(" + ws + ", " + (to == 0 ? "same" : to == 1 ? "next but one" : "end") + ")", 0, [at, to](P& p) {
        const size_t i = at(p);
        const size_t j = to == 0 ? i : to == 1 ? i + 2 : p.ra.size();
        if (j > p.ra.size()) return false;
        p.inPlace(0, [&] {
          auto r = p.a->erase(p.a->cbegin() + i, p.a->cbegin() + j);
          p.returned(r, p.ra.erase(p.ra.begin() + i, p.ra.begin() + j));
        });
        return true;
      });
  }
  add("erase(last)", 0, [](P& p) {
    if (p.ra.empty()) return false;
    p.returned(p.a->erase(p.a->cend() - 1), p.ra.erase(p.ra.end() - 1));
    return true;
  });
  // -- size and capacity
  for (int what : {0, 1, 2, 3, 4, 5, 6}) {
    const char* names[] = {"0", "size-1", "size", "size+1", "size+3", "capacity", "capacity+1"};
    auto newSize = [what](P& p, size_t& n) {
      const size_t s = p.ra.size(), c = p.a->capacity();
      if (what == 1 && s == 0) return false;
      n = what == 0 ? 0 : what == 1 ? s - 1 : what == 2 ? s : what == 3 ? s + 1 : what == 4 ? s + 3 : what == 5 ? c : c + 1;
      return true;
    };
    add(std::string("resize(") + names[what] + ")", 3, [newSize](P& p) {
      size_t n;
      if (!newSize(p, n)) return false;
      const size_t old = p.ra.size();
      p.inPlace(n, [&] { p.a->resize(n); });
      p.ra.resize(n);
      if (p.a->size() == n && n > old) p.fill(old, n);
      return true;
    });
    add(std::string("resize(") + names[what] + ", value)", 3, [newSize](P& p) {
      size_t n;
      if (!newSize(p, n)) return false;
      const T x = p.fresh();
      p.inPlace(n, [&] { p.a->resize(n, x); });
      p.ra.resize(n, x);
      return true;
    });
    add(std::string("resize(") + names[what] + ", front())", 3, [newSize](P& p) {
      size_t n;
      if (p.ra.empty() || !newSize(p, n)) return false;
      p.a->resize(n, p.a->front());
      p.ra.resize(n, T(p.ra.front()));
      return true;
    });
    add(std::string("reserve(") + names[what] + ")", 0, [newSize](P& p) {
      size_t n;
      if (!newSize(p, n)) return false;
      p.inPlace(n, [&] { p.a->reserve(n); });
      p.require(p.a->capacity() >= n, "has too little capacity after reserve()");
      return true;
    });
  }
  add("shrink_to_fit()", 0, [](P& p) {
    p.a->shrink_to_fit();
    p.require(p.a->capacity() == p.ra.size(), "has spare capacity after shrink_to_fit()");
    return true;
  });
  add("clear()", 0, [](P& p) {
    p.inPlace(0, [&] { p.a->clear(); });
    p.ra.clear();
    return true;
  });
  add("at(past the end)", 0, [](P& p) {
    V& v = *p.a;
    const V& c = v;
    for (size_t i : {p.ra.size(), p.ra.size() + 1, std::max(p.ra.size(), c.capacity()), ~size_t(0)}) {
      for (bool constant : {false, true}) {
        bool thrown = false;
        try {
          if (constant) c.at(i);
          else v.at(i);
        } catch (const std::out_of_range&) {
          thrown = true;
        }
        p.require(thrown, "at() gives an element past the end");
      }
    }
    return true;
  });
  // -- everything
  for (size_t n : {0, 1, 2, 4}) {
    const std::string ns = std::to_string(n);
    add("assign(" + ns + ", value)", n, [n](P& p) {
      const T x = p.fresh();
      p.inPlace(n, [&] { p.a->assign(n, x); });
      p.ra.assign(n, x);
      return true;
    });
    add("assign(list of " + ns + ")", n, [n](P& p) {
      std::list<T> x;
      for (size_t i = 0; i != n; ++i) x.push_back(p.fresh());
      p.inPlace(n, [&] { p.a->assign(x.begin(), x.end()); });
      p.ra.assign(x.begin(), x.end());
      return true;
    });
    add("construct(" + ns + ")", n, [n](P& p) {
      p.a.emplace(n);
      p.idOf[0] = 0;
      p.ra.assign(n, T());
      if (p.a->size() == n) p.fill(0, n);
      return true;
    });
    add("construct(" + ns + ", value)", n, [n](P& p) {
      const T x = p.fresh();
      p.a.emplace(n, x, M(p.idOf[0]));
      p.ra.assign(n, x);
      return true;
    });
    add("construct(list of " + ns + ")", n, [n](P& p) {
      std::list<T> x;
      for (size_t i = 0; i != n; ++i) x.push_back(p.fresh());
      p.a.emplace(x.begin(), x.end(), M(p.idOf[0]));
      p.ra.assign(x.begin(), x.end());
      return true;
    });
  }
  add("assign({value, value, value})", 3, [](P& p) {
    const T x = p.fresh(), y = p.fresh(), z = p.fresh();
    p.inPlace(3, [&] { p.a->assign({x, y, z}); });
    p.ra.assign({x, y, z});
    return true;
  });
  add("assign({})", 0, [](P& p) {
    p.inPlace(0, [&] { p.a->assign(std::initializer_list<T>{}); });
    p.ra.clear();
    return true;
  });
  add("assign(other)", 0, [](P& p) {
    p.inPlace(p.rb.size(), [&] { p.a->assign(p.b->begin(), p.b->end()); });
    p.ra = p.rb;
    return true;
  });
  add("assign(int, int)", 3, [](P& p) {
    const int x = p.next++ % 100;
    p.inPlace(3, [&] { p.a->assign(3, x); });
    p.ra.assign(size_t(3), T(x));
    return true;
  });
  add("construct(int, int)", 3, [](P& p) {
    const int x = p.next++ % 100;
    p.a.emplace(3, x, M(p.idOf[0]));
    p.ra.assign(size_t(3), T(x));
    return true;
  });
  add("construct({value, value})", 2, [](P& p) {
    const T x = p.fresh(), y = p.fresh();
    p.a.emplace(std::initializer_list<T>{x, y}, M(p.idOf[0]));
    p.ra.assign({x, y});
    return true;
  });
  add("construct copy of other", 0, [](P& p) {
    const V& source = *p.b;
    p.a.emplace(source);
    p.ra = p.rb;
    p.idOf[0] = p.idOf[1];
    return true;
  });
  add("construct copy of other, own allocator", 0, [](P& p) {
    const V& source = *p.b;
    p.a.emplace(source, M(p.idOf[0]));
    p.ra = p.rb;
    return true;
  });
  add("construct by moving other", 0, [](P& p) {
    const size_t n = theHeap.nAllocations();
    const T* before = p.b->data();
    p.a.emplace(std::move(*p.b));
    p.require(theHeap.nAllocations() == n, "allocates to move");
    p.require(p.rb.empty() || p.a->data() == before, "copies to move");
    p.b->clear();
    p.ra = p.rb;
    p.rb.clear();
    p.idOf[0] = p.idOf[1];
    return true;
  });
  add("construct by moving other, own allocator", 0, [](P& p) {
    p.a.emplace(std::move(*p.b), M(p.idOf[0]));
    p.b->clear();
    p.ra = p.rb;
    p.rb.clear();
    return true;
  });
  add("= other", 0, [](P& p) {
    const V& source = *p.b;
    V& r = (*p.a = source);
    p.require(&r == &*p.a, "assignment returns something else");
    p.ra = p.rb;
    if (Which == 2) p.idOf[0] = p.idOf[1];
    return true;
  });
  add("= itself", 0, [](P& p) {
    const V& source = *p.a;
    *p.a = source;
    return true;
  });
  add("= moved other", 0, [](P& p) {
    const size_t n = theHeap.nAllocations();
    V& r = (*p.a = std::move(*p.b));
    p.require(&r == &*p.a, "assignment returns something else");
    if (Which == 2 || p.idOf[0] == p.idOf[1])
      p.require(theHeap.nAllocations() == n, "allocates to move");
    p.b->clear();
    p.ra = p.rb;
    p.rb.clear();
    if (Which == 2) p.idOf[0] = p.idOf[1];
    return true;
  });
  add("= moved itself", 0, [](P& p) {
    V& source = *p.a;
    *p.a = std::move(source);
    p.a->clear();
    p.ra.clear();
    return true;
  });
  for (bool member : {true, false})
    add(member ? "swap with other" : "swap(a, b)", 0, [member](P& p) {
      if (Which == 1 && p.idOf[0] != p.idOf[1]) return false;  // undefined
      const size_t n = theHeap.nAllocations();
      const T *da = p.a->data(), *db = p.b->data();
      if (member) p.a->swap(*p.b);
      else swap(*p.a, *p.b);
      p.require(theHeap.nAllocations() == n && p.a->data() == db && p.b->data() == da,
                "does not swap in place");
      p.ra.swap(p.rb);
      if (Which == 2) std::swap(p.idOf[0], p.idOf[1]);
      return true;
    });
  return l;
}

// ---- Exploration ----

constexpr size_t kMaxElements = 40;

template <typename T, int Which>
class Container {
 public:
  typedef Pair<T, Which> P;
  Container(const std::string& name, int idA, int idB)
      : _name(name), _idA(idA), _idB(idB), _operations(P::operations()) {}
  size_t nOperations() const { return _operations.size(); }

  // All continuations of a sequence up to a depth
  void sequences(std::vector<int> sequence, size_t depth) {
    if (!execute(sequence, -1, nullptr)) return;
    for (size_t f = 0; f != 2; ++f)
      if (f == 1) execute(sequence, int(sequence.size()) - 1, nullptr);
    if (sequence.size() == depth) return;
    sequence.push_back(0);
    for (size_t i = 0; i != _operations.size(); ++i) {
      sequence.back() = i;
      sequences(sequence, depth);
    }
  }

  // Every operation in every state (sizes, capacities and allocators) that can
  // be reached. part of parts: the operations that are tried in this execution
  void states(size_t maxSize, size_t maxCapacity, size_t part, size_t parts) {
    std::map<State, std::vector<int>> known;
    std::vector<const std::pair<const State, std::vector<int>>*> todo;
    State s;
    execute({}, -1, &s);
    todo.push_back(&*known.emplace(s, std::vector<int>()).first);
    for (size_t next = 0; next != todo.size(); ++next) {
      std::vector<int> sequence = todo[next]->second;
      const int size = todo[next]->first[0];
      sequence.push_back(0);
      for (size_t i = 0; i != _operations.size(); ++i) {
        if (size + _operations[i].nNew > maxSize + 6) continue;
        sequence.back() = i;
        if (!execute(sequence, -1, &s)) continue;
        // The same sequence with an operation that finds no memory
        if (i % parts == part) execute(sequence, int(sequence.size()) - 1, nullptr);
        if (size_t(s[0]) > maxSize || size_t(s[2]) > maxSize || size_t(s[1]) > maxCapacity ||
            size_t(s[3]) > maxCapacity)
          continue;
        auto r = known.emplace(s, sequence);
        if (r.second) todo.push_back(&*r.first);
      }
    }
    if (part == 0) count("container_states", todo.size());
    outcome(todo.size());
  }

 private:
  typedef std::array<int, 8> State;

  // Returns false when the last operation can not be applied
  bool execute(const std::vector<int>& sequence, int failAt, State* state) {
    P p(_idA, _idB);
    for (size_t k = 0; k != sequence.size(); ++k) {
      const typename P::Op& op = _operations[sequence[k]];
      const typename P::R ra = p.ra, rb = p.rb;
      const int ids[2] = {p.idOf[0], p.idOf[1]};
      if (p.ra.size() + op.nNew > kMaxElements || p.a->capacity() > kMaxElements) return false;
      const bool last = k + 1 == sequence.size();
      theHeap.failNext(int(k) == failAt);
      bool applied;
      try {
        applied = op.run(p);
      } catch (const std::bad_alloc&) {
        if (!theHeap.failed()) fail(sequence, k, "throws bad_alloc");
        // A constructor
        if (!p.a) {
          p.a.emplace(Memory<T, Which>(ids[0]));
          p.ra.clear();
        } else if (p.a->size() == ra.size())
          p.ra = ra;
        p.rb = rb;
        p.idOf[0] = ids[0];
        p.idOf[1] = ids[1];
        p.bad.clear();
        const std::string text = p.problem();
        if (!text.empty()) fail(sequence, k, text + " after an allocation failed");
        p.finish();
        if (!p.bad.empty()) fail(sequence, k, p.bad + " after an allocation failed");
        count("container_allocations_failed");
        return true;
      } catch (const std::exception& e) {
        fail(sequence, k, std::string("throws ") + e.what());
      }
      theHeap.failNext(false);
      if (!applied) return false;
      if (last && failAt < 0) {
        if (p.bad.empty()) p.bad = p.problem();
        if (!p.bad.empty()) fail(sequence, k, p.bad);
      }
    }
    if (state)
      *state = State{int(p.a->size()), int(p.a->capacity()), int(p.b->size()), int(p.b->capacity()),
                     p.idOf[0], p.idOf[1], p.a->data() != nullptr, p.b->data() != nullptr};
    p.finish();
    if (!p.bad.empty()) fail(sequence, sequence.size() - 1, p.bad + " after destruction");
    count("container_sequences");
    return true;
  }
  void fail(const std::vector<int>& sequence, size_t k, const std::string& text) {
    std::string s = _name + ": ";
    for (size_t i = 0; i <= k && i < sequence.size(); ++i) {
      if (i) s += "; ";
      s += _operations[sequence[i]].name;
    }
    violation("container", s + ": " + text);
  }

  std::string _name;
  int _idA, _idB;
  std::vector<typename P::Op> _operations;
};

template <typename T, int Which>
void add(ScenarioList& list, const std::string& name, int idA, int idB, size_t depth, size_t maxSize,
         size_t maxCapacity) {
  auto c = std::make_shared<Container<T, Which>>(name, idA, idB);
  Scenario s;
  s.name = "container/sequences " + name;
  s.run = [c, depth] {
    std::vector<int> start = {mc::choose(c->nOperations(), 0)};
    if (depth > 3) start.push_back(mc::choose(c->nOperations(), 0));
    c->sequences(start, depth);
  };
  s.cache = false;
  list.push_back(s);
  s.name = "container/states " + name;
  s.run = [c, maxSize, maxCapacity] {
    const int part = mc::choose(4, 0);
    c->states(maxSize, maxCapacity, part, 4);
  };
  list.push_back(s);
}

// All pairs of small vectors
template <typename T>
void compare(const std::vector<T>& alphabet, size_t length) {
  typedef aocommon::UVector<T> V;
  std::vector<std::vector<T>> all(1);
  for (size_t i = 0; i != all.size(); ++i)
    if (all[i].size() < length)
      for (T x : alphabet) {
        std::vector<T> v = all[i];
        v.push_back(x);
        all.push_back(v);
      }
  for (const std::vector<T>& x : all)
    for (const std::vector<T>& y : all) {
      const V a(x.begin(), x.end()), b(y.begin(), y.end());
      count("container_comparisons");
      if ((a == b) != (x == y) || (a != b) != (x != y) || (a < b) != (x < y) || (a <= b) != (x <= y) ||
          (a > b) != (x > y) || (a >= b) != (x >= y)) {
        std::ostringstream o;
        for (const std::vector<T>* v : {&x, &y}) {
          o << '{';
          for (T e : *v) o << ' ' << e;
          o << " } ";
        }
        violation("container", "compares wrongly: " + o.str());
      }
    }
}

// Adding elements one by one takes a number of allocations that is logarithmic
void growth(size_t n, int how) {
  typedef Memory<int, 0> M;
  theHeap.reset();
  {
    aocommon::UVector<int, M> v;
    for (size_t i = 0; i != n; ++i) {
      if (how == 0) v.push_back(int(i));
      else if (how == 1) v.emplace_back(int(i));
      else if (how == 2) v.insert(v.cend(), int(i));
      else v.push_back(1, int(i));
    }
    for (size_t i = 0; i != n; ++i)
      if (v.size() != n || v[i] != int(i)) violation("container", "loses elements while growing");
    size_t log = 1;
    while ((size_t(1) << log) < n) ++log;
    if (theHeap.nAllocations() > 4 * log + 8)
      violation("container", "takes " + std::to_string(theHeap.nAllocations()) + " allocations to grow to " +
                                 std::to_string(n) + " elements");
    count("container_sequences");
  }
  theHeap.check();
  if (!theHeap.problem().empty() || theHeap.live() != 0)
    violation("container", theHeap.problem() + " while growing");
}

}  // namespace

void addContainer(ScenarioList& list, bool thorough) {
  const size_t few = thorough ? 3 : 2, more = thorough ? 4 : 3;
  const size_t size = thorough ? 8 : 5, capacity = thorough ? 16 : 9;
  add<int, 1>(list, "int, own allocators", 1, 2, more, size, capacity);
  add<int, 1>(list, "int, same allocator", 1, 1, few, size, capacity);
  add<float, 2>(list, "float, propagating allocators", 1, 2, few, std::min<size_t>(size, 6), std::min<size_t>(capacity, 12));
  add<std::complex<float>, 0>(list, "complex, equal allocators", 0, 0, few, size, capacity);
  add<unsigned char, 0>(list, "bytes, equal allocators", 0, 0, few, size, capacity);
  add<Sample, 0>(list, "structs, equal allocators", 0, 0, few, size, capacity);
  Scenario s;
  s.cache = false;
  s.name = "container/comparisons";
  s.run = [thorough] {
    const float nan = std::numeric_limits<float>::quiet_NaN();
    const size_t n = thorough ? 5 : 4;
    if (mc::choose(2, 0)) compare<float>({nan, 0.0f, 1.0f}, n);
    else compare<int>({-1, 0, 1}, n);
  };
  list.push_back(s);
  s.name = "container/growth";
  s.run = [] {
    const int how = mc::choose(4, 0);
    for (size_t n : {1, 2, 3, 10, 100, 1000, 20000}) growth(n, how);
  };
  list.push_back(s);
}
