"""Unusual declarations, by name: what spec/Bindings.tla leaves open except that they must not
break anything else. @ is replaced by a number, $K by the class a member belongs to, $T by some
other complete class."""

MEMBER = {
    "ref-qualified-lvalue": "void rq@() &;", "ref-qualified-rvalue": "void rq@() &&;", "ref-qualified-const": "void rq@() const &;",
    "volatile-method": "void vol@() volatile;", "noexcept-method": "void nx@() noexcept;", "default-argument": "void da@(int a = 3);",
    "template-method": "template<class X> void tm@(X x);", "conversion-operator": "operator int*() const;", "explicit-conversion": "explicit operator bool() const;",
    "call-operator": "int operator()(int a@);", "index-operator": "int operator[](int i@) const;", "plus-operator": "int operator+(const $K& o) const;",
    "increment-operators": "$K& operator++(); $K operator++(int);", "class-new": "void* operator new(unsigned long);", "class-delete": "void operator delete(void*);",
    "class-new-delete": "void* operator new(unsigned long); void operator delete(void*);", "placement-new": "void* operator new(unsigned long, void*); void* operator new(unsigned long);",
    "equality": "bool operator==(const $K&) const;", "less": "bool operator<(const $K&) const;", "arrow": "$K* operator->();", "deref": "int operator*() const;",
    "comma": "$K& operator,(int);", "friend": "friend void fr@($K&);", "static-variadic": "static void st@(...);", "array-parameter": "void arr@(int a[4]);",
    "callback": "void fp@(void (*cb)(int));", "pointer-pointer": "void pp@(int** p);", "reference-to-pointer": "void rp@(int*& p);", "reference-to-array": "void ra@(int (&a)[4]);",
    "member-pointer": "void mp@(int $K::*p);", "volatile-pointer": "void cv@(volatile int* p);", "void-pointer": "void vv@(void* p); void cvv@(const void* p);",
    "long-longs": "void ll@(long long a, unsigned long long b);", "chars": "void sc@(signed char c, unsigned char d);", "char16": "void c16@(char16_t e);",
    "wchar": "void wc@(wchar_t f);", "long-double": "void ld@(long double g);", "int128": "void i128@(__int128 h);", "nullptr": "void np@(decltype(nullptr) n);",
    "const-int-return": "const int ci@(const int a);", "const-pointer-parameter": "void ac@($T* const p);", "const-class-return": "const $T co@();",
    "const-pointer-return": "$T* const cpp@();", "constexpr": "constexpr int ce@() const { return 3; }", "inline": "inline void in@() {}", "static-data": "static int sv@;",
    "static-const": "static const int scv@ = 3;", "array-field": "int arrf@[4];", "pointer-field": "int* pf@;", "bitfield": "bool bf@ : 1;", "anonymous-struct-field": "struct {int a;} af@;",
    "anonymous-enum-field": "enum {X1@,X2@} ef@;", "inner-enum-class": "enum class EC@ {A,B}; EC@ ec@();", "inner-int-alias": "using U@ = int; U@ uu@();",
    "inner-class-alias": "typedef $T OO@; OO@ oo@(); const OO@& oor@();", "anonymous-union": "union {int ua@; float ub@;};", "virtual": "virtual void vf@();",
    "static-factory": "static $T mk@();", "pointer-getter": "$T* mkp@() const;", "c-string": "const char* cs@() const; void cs2@(const char* a);",
    "int-pointer": "void ip@(int* a); int* ir@();", "int-reference": "int& irr@(); const int& icr@() const;", "bool-reference": "bool& br@(); void br2@(bool& b); void br3@(const bool& b);",
    "char-reference": "char& cr@(); void cr2@(char& c);", "float-reference": "float& fr@();", "int-rvalue": "void rr@(int&& a);", "class-rvalue": "void orr@($T&& o);",
    "two-by-value": "void ov@($T o, $T p);", "pointer-rvalue": "void prr@(int*&& a);", "inner-incomplete": "class Inc@; void inc@(Inc@&);",
    "inner-private": "private: struct X@ {}; public: X@ getx@(); void tx@(X@& x);", "inner-protected": "protected: struct X@ {}; public: X@ getx@(); void tx@(X@& x);",
    "deduced-return": "auto au@() { return 3; }", "rust-keywords": "void type(); void fn(); void match(); void impl(); void mod();", "rust-keyword-self": "void self(); void Self();",
    "keyword-fields": "int crate; int self; int type;", "double-underscore": "void a_b@(); void a__b@();", "keyword-parameters": "int kw@(int impl, int self, int r, int fn, int async);",
    "drop-method": "void drop();", "new-method": "void new_(); static $K create();", "const-overload": "$T& get@(); const $T& get@() const;",
    "reference-return-same": "$K& chain@($K& a);", "static-and-method": "static void sm@(int a); void sm@(int a, int b);", "pointer-to-const-pointer": "void pcp@($T* const* a);",
    "struct-return-ref-const": "const $T& crc@(const $T& a) const;", "many-parameters": "int mp@(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l, int m);",
    "bool-char-mix": "bool bcm@(bool a, char b, signed char c, unsigned char d);", "float-double": "double fd@(float a, double b);", "inner-struct": "struct In@ { int a; $T* t; }; In@ in@(); void in2@(const In@& a, In@* b);",
}

FREE = {
    "minus-operator": "struct Mo@{int a;}; Mo@ operator-(const Mo@&, const Mo@&);", "notequal-operator": "struct Ne@{int a;}; bool operator!=(const Ne@&, const Ne@&);",
    "static-function": "static void sf@(int a);", "inline-function": "inline void inf@(int a) {}", "anonymous-namespace-function": "namespace { void anon@(int a); }",
    "extern-c": 'extern "C" void exc@(int a);', "template-function": "template<class X> void tf@(X x);", "trailing-return": "auto au@() -> int;", "noexcept-false": "void thr@() noexcept(false);",
    "union": "union Un@ { int a; float b; }; void un@(Un@ u); Un@& unr@(Un@& u);", "struct-with-anonymous": "struct Anon@ { struct { int a; } b; }; void ano@(Anon@& a);",
    "variables": 'extern int ev@; const int cvv@ = 5; static const char* scv@ = "a"; constexpr double dv@=1.5;', "anonymous-enum": "enum {AE@, AF@};",
    "enum-class": "enum class EE@ : unsigned char {A, B}; void ee@(EE@ e); EE@ re@();", "c-typedef-struct": "typedef struct {int a;} TS@; void ts@(TS@ t);",
    "function-pointer-typedef": "typedef int (*FP@)(int); void fp@(FP@ p); FP@ rfp@();", "template-class": "template<class T> struct Tm@ {T t;}; void tm@(Tm@<int> t); Tm@<$T>& tmr@(Tm@<$T>& k);",
    "template-alias": "template<class T> struct Tq@ {T t;}; using Ali@ = Tq@<int>; void ta@(const Ali@& a);", "alias-template": "template<class T> struct Tq@ {T t;}; template<class T> using At@ = Tq@<T>; void ta@(const At@<int>& a);",
    "deep-namespace": "namespace n1@ { namespace n2@ { void deep@(); class Deep@ { public: class Inner { public: void f(); }; Inner g(); }; } }",
    "uncopyable-by-value": "class NC@ { public: NC@(const NC@&) = delete; NC@(); }; void nc@(NC@ n); NC@ rnc@();", "uncopyable-by-reference": "class ND@ { public: ND@(const ND@&) = delete; ND@(); }; void nd@(ND@& n);",
    "private-destructor-reference": "class PD@ { ~PD@(); public: PD@(); }; void pd@(PD@& n); PD@* pdp@();", "private-destructor-value": "class PE@ { ~PE@(); public: PE@(); }; PE@ rpd@(); void vpd@(PE@ p);",
    "abstract": "class AB@ { public: virtual void f() = 0; }; AB@& ab@(AB@&);", "flexible-array": "struct Flex@ { int n; char data[]; }; void fx@(Flex@& f);",
    "overaligned": "struct alignas(32) Al@ { char c; }; void al@(Al@ a); Al@ ral@();", "big": "struct Big@ { char c[1000]; }; Big@ big@(Big@ b);", "empty": "struct Emp@ {}; Emp@ emp@(Emp@ e);",
    "bitfields": "struct BF@ { int a : 3; int b: 5; }; BF@ bf@(BF@ b);", "final": "class Fin@ final { public: int x; }; Fin@ fin@();", "virtual-base": "class VB@ : public virtual $T { public: int z; }; VB@ vb@(VB@ v);",
    "private-base": "class PB@ : private $T { public: int z; }; PB@ pb@();", "keyword-parameters": "void kw@(int type, int self, int crate, int match, int fn);", "keyword-function": "int match(int a); void type();",
    "drop-function": "void drop();", "inline-namespace": "inline namespace inl@ { void ins@(); class InC@ {}; } void useinc@(InC@& c);", "self-pointer": "struct LL@ { LL@* next; }; LL@ ll@(); LL@* lp@(LL@*);",
    "mutual": "struct A1@; struct B1@ {A1@* a;}; struct A1@ {B1@ b;}; A1@ a1@();", "nested-pointers": "void nt@(const $T* const* a);", "unsized-array": "void an@($T a[]);",
    "longs": "long lo@(long a); unsigned long ulo@(unsigned long a); unsigned short us@(unsigned short);", "void-parameter": "void vd@(void);", "variadic-only": "void e@(...);",
    "every-mode": "$T k1@($T&& a, $T b, const $T& c, $T& d, $T* e, const $T* f);", "anonymous-namespace-type": "namespace { struct An@ { int a; }; } void an@(const An@& a);",
    "array-typedef": "typedef int Arr@[3]; void ar@(const Arr@& a);", "array-typedef-rvalue": "typedef int Arr@[3]; void ar@(Arr@&& a);", "static-array-fields": "struct SA@ { int a[2][3]; $T t[2]; }; void sa@(SA@ s);",
    "global-of-class": "extern $T glob@;", "enum-c": "enum EC@ { EA@ = -1, EB@ = 5 }; EC@ ec@(EC@ a);", "enum-big": "enum class EB@ : unsigned long { A = 0xffffffffffffffff }; void eb@(EB@ e);",
    "struct-copy-only": "struct CO@ { CO@(const CO@&); }; CO@ co@(CO@ a);", "struct-move-only": "struct MO@ { MO@(MO@&&); }; MO@ mo@(MO@ a);", "explicit-ctor": "struct EX@ { explicit EX@(int a); EX@(double a, int b = 2); }; void ex@(EX@ e);",
    "reference-field": "struct RF@ { int& r; }; void rf@(RF@& r);", "const-field": "struct CF@ { const int c; }; void cf@(CF@& c);", "rvalue-field": "struct RV@ { int&& c; }; void rv@(RV@& c);",
    "deleted-destructor": "struct DD@ { ~DD@() = delete; }; void dd@(DD@& d); DD@* ddp@();", "typedef-chain": "typedef $T TC@; typedef TC@ TD@; TD@ tc@(const TC@& a);", "typedef-int": "typedef int TI@; TI@ ti@(TI@ a, TI@* b, const TI@& c);",
    "struct-in-namespace-same-prefix": "namespace pre@ { struct P@ {int a;}; } namespace pre@x { struct Px@ {int a;}; void px@(pre@::P@ p, Px@ q); }", "forward-only": "struct FO@; FO@* fo@(); void fo2@(const FO@& f);",
    "function-type-typedef": "typedef void FT@(int); void ft@(FT@* f);", "default-arguments": "void df@(int a, int b = 2, const $T* c = nullptr);", "attribute": "[[deprecated]] void dep@(int a); [[nodiscard]] int nd@();",
    "overloads": "void ovl@(int a); void ovl@(const $T& a); void ovl@($T* a);", "same-name-type-function": "struct Sn@ {int a;}; void sn@(struct Sn@& a);", "crtp": "template<class D> struct Crtp@ { void base(); }; struct Der@ : Crtp@<Der@> { int a; }; void crtp@(Der@& d);",
    "protected-members": "class Pm@ { protected: int a; void f(); public: int b; void g(); }; void pm@(Pm@& p);", "using-declaration": "namespace ud@ { struct U@ {int a;}; } using ud@::U@; void ud2@(U@& u);",
    "const-through-using": "namespace ue@ { struct V@ {int a;}; } using ue@::V@; void ue2@(const V@& u);",
    "multiple-bases": "struct Mb@ { int a; virtual void f(); }; struct Mc@ { int b; }; struct Md@ : Mb@, Mc@ { int c; }; Md@* md@(Mb@& a, Mc@& b);",
    "const-data": "const unsigned long cd@ = 18446744073709551615ul; const bool cb@ = true; const char cc@ = 'x';", "ref-to-const-ptr": "void rcp@(const $T* const& p);",
}


def text(kind, name, n, klass, other):
    t = (MEMBER if kind == "m" else FREE)[name]
    return t.replace("@", str(n)).replace("$K", klass).replace("$T", other)
