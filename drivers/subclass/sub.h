#pragma once
#include <cstdint>
#include <memory>
#include <string>

class Act {
public:
  Act();
  virtual ~Act();
  // overridden in Rust
  virtual int cc(int x) const;
  virtual int mm(int x);
  virtual int pc(int x) const = 0;
  virtual int pm(int x) = 0;
  // not overridden
  virtual int nc(int x) const;
  virtual int nm(int x);
private:
  int mark;
};
// Everything that happens is written to one log; objects are numbered as they are built.
void sub_reset();
std::string take_log();
void log_rust(int what, int id, int x);
int ident(const uint8_t* p);
bool peer_alive(int id);
// calls a virtual function of the object with this number, of this object
int call(int id, int kind, int x);
int call_ref(const Act& a, int kind, int x);
int call_mut(Act& a, int kind, int x);
// C++ keeps objects
void keep(int c, std::unique_ptr<Act> p);
std::unique_ptr<Act> fetch(int c);
void del(int c);
int kept(int c);
