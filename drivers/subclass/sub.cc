#include "input.h"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <new>
#include <sstream>

// Memory which is given back is made useless and never used again.
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { if (p) std::memset(p, 0xdd, malloc_usable_size(p)); }
void operator delete(void* p, std::size_t) noexcept { if (p) std::memset(p, 0xdd, malloc_usable_size(p)); }

namespace {
std::map<int, Act*> alive;
std::map<const void*, int> numbers;
int next = 1;
std::ostringstream out;
bool first = true;
std::unique_ptr<Act> store[8];
void ev(const std::string& e, int o, int x) {
  out << (first ? "" : ",") << "{\"e\":\"" << e << "\",\"o\":" << o << ",\"x\":" << x << "}";
  first = false;
}
int number(const void* p) { auto i = numbers.find(p); return i == numbers.end() ? -1 : i->second; }
}  // namespace

Act::Act() : mark(next) { alive[next] = this; numbers[this] = next; ev("cnew", next, 0); next++; }
Act::~Act() { int n = number(this); ev("cdrop", n, mark == n ? 0 : 1); alive.erase(n); numbers.erase(this); }
int Act::cc(int x) const { ev("base-cc", number(this), x); return x * 10 + 5; }
int Act::mm(int x) { ev("base-mm", number(this), x); return x * 10 + 6; }
int Act::nc(int x) const { ev("base-nc", number(this), x); return x * 10 + 7; }
int Act::nm(int x) { ev("base-nm", number(this), x); return x * 10 + 8; }

void sub_reset() { for (auto& s : store) s.release(); alive.clear(); numbers.clear(); next = 1; out.str(""); first = true; }
std::string take_log() { std::string s = out.str(); out.str(""); first = true; return s; }
void log_rust(int what, int id, int x) {
  static const char* names[] = {"rdrop", "rs-cc", "rs-mm", "rs-pc", "rs-pm"};
  ev(names[what], id, x);
}
int ident(const uint8_t* p) { return number(p); }
bool peer_alive(int id) { return alive.count(id) != 0; }
int call_ref(const Act& a, int kind, int x) { return kind == 1 ? a.cc(x) : kind == 3 ? a.pc(x) : a.nc(x); }
int call_mut(Act& a, int kind, int x) {
  switch (kind) {
    case 2: return a.mm(x);
    case 4: return a.pm(x);
    case 6: return a.nm(x);
    default: return call_ref(a, kind, x);
  }
}
int call(int id, int kind, int x) { return call_mut(*alive.at(id), kind, x); }
void keep(int c, std::unique_ptr<Act> p) { store[c] = std::move(p); }
std::unique_ptr<Act> fetch(int c) { return std::move(store[c]); }
void del(int c) { delete store[c].release(); }
int kept(int c) { return store[c] ? number(store[c].get()) : 0; }
