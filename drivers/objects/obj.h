#pragma once
// Instrumented C++ classes: every construction, copy, move, destruction, allocation and call is
// written to a log, identified by the address it really happened at.
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <string>

namespace rec {
// plain functions so that nothing of the recorder itself is bound
void born(const void* p, int v, const void* from, int how);  // how: 0 ctor, 1 copy, 2 move
void gone(const void* p);
void changed(const void* p, int v);
void called(const char* f, const void* a, const void* b);
void* take_memory(std::size_t n);
void give_memory(void* p);
}  // namespace rec

std::string take_log();
void reset_log();
int32_t ident(const uint8_t* p);

#define COMMON(C)                                         \
  int get() const { return v; }                           \
  void set(int x) { v = x; rec::changed(this, x); }       \
  const uint8_t* at() const { return reinterpret_cast<const uint8_t*>(this); } \
  const C& self() const { return *this; }                 \
  C& self_mut() { return *this; }                         \
  ~C() { rec::gone(this); }                               \
 private:                                                 \
  int v;                                                  \
  C* me;                                                  \
 public:

class Full {
 public:
  Full(int x) : v(x), me(this) { rec::born(this, x, nullptr, 0); }
  Full(const Full& o) : v(o.v), me(this) { rec::born(this, v, &o, 1); }
  Full(Full&& o) : v(o.v), me(this) { o.v = 0; rec::born(this, v, &o, 2); }
  COMMON(Full)
};
class MoveOnly {
 public:
  MoveOnly(int x) : v(x), me(this) { rec::born(this, x, nullptr, 0); }
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly(MoveOnly&& o) : v(o.v), me(this) { o.v = 0; rec::born(this, v, &o, 2); }
  COMMON(MoveOnly)
};
class CopyOnly {
 public:
  CopyOnly(int x) : v(x), me(this) { rec::born(this, x, nullptr, 0); }
  CopyOnly(const CopyOnly& o) : v(o.v), me(this) { rec::born(this, v, &o, 1); }
  COMMON(CopyOnly)
};
class Alloc {
 public:
  Alloc(int x) : v(x), me(this) { rec::born(this, x, nullptr, 0); }
  Alloc(const Alloc& o) : v(o.v), me(this) { rec::born(this, v, &o, 1); }
  Alloc(Alloc&& o) : v(o.v), me(this) { o.v = 0; rec::born(this, v, &o, 2); }
  static void* operator new(std::size_t n) { return rec::take_memory(n); }
  static void* operator new(std::size_t, void* p) { return p; }
  static void operator delete(void* p) { rec::give_memory(p); }
  COMMON(Alloc)
};

#define FUNCTIONS(C, L)                                                                        \
  inline void take_##L(C a) { rec::called("take", &a, nullptr); }                              \
  inline void take2_##L(C a, int32_t n, C b) { rec::called("take2", &a, &b); }                 \
  inline void rtake_##L(C&& a) { rec::called("rtake", &a, nullptr); }                          \
  inline void rsteal_##L(C&& a) { rec::called("rsteal", &a, nullptr); C b(std::move(a)); }     \
  inline void vr_##L(C a, C&& b) { rec::called("vr", &a, &b); }                                \
  inline void rv_##L(C&& a, C b) { rec::called("rv", &a, &b); }                                \
  inline C make_##L(int32_t v) { return C(v); }                                                \
  inline C echo_##L(C a) { rec::called("echo", &a, nullptr); return a; }                       \
  inline std::unique_ptr<C> makeup_##L(int32_t v) { return std::unique_ptr<C>(new C(v)); }     \
  inline std::unique_ptr<C> passup_##L(std::unique_ptr<C> p) { rec::called("passup", p.get(), nullptr); return p; } \
  inline void borrow_##L(const C& a, C& b) { rec::called("borrow", &a, &b); }
FUNCTIONS(Full, f)
FUNCTIONS(MoveOnly, m)
FUNCTIONS(CopyOnly, c)
FUNCTIONS(Alloc, a)

// something which keeps what it is given
#define SINK(C, N)                                                       \
  class N {                                                              \
   public:                                                               \
    N(C a) : kept(std::move(a)) { rec::called("sink", &kept, nullptr); } \
    void put(C a) { rec::called("put", &a, nullptr); }                   \
    static void sput(C a) { rec::called("sput", &a, nullptr); }          \
    virtual void vput(C a) { rec::called("vput", &a, nullptr); }         \
    virtual ~N() {}                                                      \
                                                                         \
   private:                                                              \
    C kept;                                                              \
  };
SINK(Full, SinkF)
SINK(MoveOnly, SinkM)
SINK(CopyOnly, SinkC)
SINK(Alloc, SinkA)
