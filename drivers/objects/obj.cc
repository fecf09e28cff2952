#include "input.h"
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>
#include <vector>

namespace rec {
static std::map<const void*, int> live;   // address -> number of the object living there
static std::map<void*, int> blocks;
static int next = 1, nblock = 1;
static std::ostringstream out;
static bool first = true;
static int at(const void* p) {
  if (!p) return 0;
  auto i = live.find(p);
  return i == live.end() ? -1 : i->second;
}
static void ev(const std::string& s) {
  out << (first ? "" : ",") << "{" << s << "}";
  first = false;
}
static std::string n(const char* k, int v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
void born(const void* p, int v, const void* from, int how) {
  int was = at(p) > 0 ? 1 : 0;
  int src = at(from);
  live[p] = next;
  ev(std::string("\"e\":\"") + (how == 0 ? "ctor" : how == 1 ? "copy" : "move") + "\"" + n("o", next) + n("s", src) + n("v", v) + n("over", was));
  next++;
}
void gone(const void* p) {
  ev("\"e\":\"dtor\"" + n("o", at(p)));
  live.erase(p);
}
void changed(const void* p, int v) { ev("\"e\":\"set\"" + n("o", at(p)) + n("v", v)); }
void called(const char* f, const void* a, const void* b) {
  ev(std::string("\"e\":\"call\",\"f\":\"") + f + "\"" + n("a", at(a)) + n("b", at(b)));
}
void* take_memory(std::size_t s) {
  void* p = std::malloc(s);
  blocks[p] = nblock;
  ev("\"e\":\"alloc\"" + n("o", nblock++));
  return p;
}
void give_memory(void* p) {
  auto i = blocks.find(p);
  ev("\"e\":\"free\"" + n("o", i == blocks.end() ? -1 : i->second));
  if (i != blocks.end()) { blocks.erase(i); std::free(p); }
}
}  // namespace rec
std::string take_log() {
  std::string s = rec::out.str();
  rec::out.str("");
  rec::first = true;
  return s;
}
void reset_log() {
  rec::live.clear();
  rec::blocks.clear();
  rec::next = rec::nblock = 1;
  take_log();
}
int32_t ident(const uint8_t* p) { return rec::at(p); }
