// One operation of Maybe / OneOf per function (analysed by rules/p13.py). Name: <spec>__<variant>.
// obs_<Container> are the observers through which initial and final states are read.
#include <kj/common.h>
#include <kj/one-of.h>
#include <kj/debug.h>
#include <kj/memory.h>
namespace vp {
using kj::Maybe; using kj::OneOf; using kj::mv;
struct A2; struct B2 { };
struct A {  // everything may throw
  uint64_t v;
  A(uint64_t); A(A&&); A(const A&); A(A&); A(A2&&); A(const A2&); A(A2&);
  A& operator=(A&&); A& operator=(const A&); A& operator=(A&); A& operator=(A2&&); A& operator=(const A2&); A& operator=(A2&);
  ~A() noexcept(false);
  bool operator==(const A& o) const;
  A clone() const;
};
struct A2 { uint64_t v, w; A2(A2&&); A2(const A2&); ~A2() noexcept(false); };
struct B {  // not assignable
  uint64_t v, w;
  B(uint64_t); B(B&&); B(const B&); B(B&); B& operator=(B&&) = delete; B& operator=(const B&) = delete;
  ~B() noexcept(false);
  bool operator==(const B& o) const;
};
struct C {  // nothing throws
  uint64_t v;
  C(uint64_t) noexcept; C(C&&) noexcept; C(const C&) noexcept; C& operator=(C&&) noexcept; C& operator=(const C&) noexcept; ~C();
  bool operator==(const C& o) const noexcept;
};
struct M {  // niche, none may be moved from; move-only
  uint64_t t;
  M(uint64_t); M(M&&); M& operator=(M&&); ~M() noexcept(false);
  bool operator==(const M& o) const;
};
struct Q {  // niche, none may not be touched
  uint64_t t;
  Q(uint64_t); Q(Q&&); Q(const Q&); Q(Q&); Q& operator=(Q&&); Q& operator=(const Q&); Q& operator=(Q&); ~Q() noexcept(false);
  bool operator==(const Q& o) const;
  Q clone() const;
};
struct R {  // niche, none may not be touched, not assignable, nothrow destructor
  uint64_t t;
  R(uint64_t); R(R&&); R(const R&); R(R&); R& operator=(R&&) = delete; R& operator=(const R&) = delete; ~R();
  bool operator==(const R& o) const;
};
struct S;  // niche, convertible from A2
struct Base { virtual ~Base() noexcept(false); int x; };
}
namespace kj {
template <> struct MaybeTraits<vp::M> { static void initNone(vp::M* p) noexcept { p->t = 0; } static bool isNone(const vp::M& m) noexcept { return m.t == 0; } static constexpr bool noneIsMoveSafe = true; };
template <> struct MaybeTraits<vp::Q> { static void initNone(vp::Q* p) noexcept { p->t = 0; } static bool isNone(const vp::Q& m) noexcept { return m.t == 0; } static constexpr bool noneIsMoveSafe = false; };
template <> struct MaybeTraits<vp::R> { static void initNone(vp::R* p) noexcept { p->t = 0; } static bool isNone(const vp::R& m) noexcept { return m.t == 0; } static constexpr bool noneIsMoveSafe = false; };
}
namespace vp {
void seeNone() noexcept; void see(const uint64_t*) noexcept; void unreachable() noexcept;
void see(const A*) noexcept; void see(const A2*) noexcept; void see(const B*) noexcept; void see(const C*) noexcept; void see(const M*) noexcept; void see(const Q*) noexcept; void see(const R*) noexcept;
void use(A&); void use(B&); void use(C&); void use(M&); void use(Q&); void use(R&);
void use(const A&); void use(const B&); void use(const C&); void use(const M&); void use(const Q&); void use(const R&);
void elseBranch();
uint64_t fn(A&); uint64_t fn(const A&); uint64_t fn(B&); uint64_t fn(const B&); uint64_t fn(C&); uint64_t fn(const C&); uint64_t fn(M&); uint64_t fn(const M&); uint64_t fn(Q&); uint64_t fn(const Q&); uint64_t fn(R&); uint64_t fn(const R&);

void obs_MaybeU(const Maybe<uint64_t>& m) { KJ_IF_SOME(v, m) see(&v); else seeNone(); }
#define COMMON(T) \
 void obs_Maybe##T(const Maybe<T>& m) { KJ_IF_SOME(v, m) see(&v); else seeNone(); } \
 Maybe<T> empty__##T() { return Maybe<T>(); } \
 Maybe<T> none__##T() { return kj::none; } \
 Maybe<T> fromMove__##T(T& x) { return Maybe<T>(mv(x)); } \
 Maybe<T> some__##T(T& x) { return kj::some(mv(x)); } \
 Maybe<T> move__##T(Maybe<T>& b) { return Maybe<T>(mv(b)); } \
 void dtor__##T(Maybe<T>& a) { a.~Maybe(); } \
 void assignMove__##T(Maybe<T>& a, Maybe<T>& b) { a = mv(b); } \
 void assignSelf__##T(Maybe<T>& a) { a = mv(a); } \
 void assignVal__##T(Maybe<T>& a, T& x) { a = mv(x); } \
 void assignOwn__##T(Maybe<T>& a) { KJ_IF_SOME(v, a) a = mv(v); } \
 void assignNone__##T(Maybe<T>& a) { a = kj::none; } \
 void emplace__##T(Maybe<T>& a, uint64_t n) { a.emplace(n); } \
 void emplaceVal__##T(Maybe<T>& a, T& x) { a.emplace(mv(x)); } \
 void emplaceInit__##T(Maybe<T>& a, uint64_t n) { a.emplaceInit(n); } \
 void emplaceInitMaybe__##T(Maybe<T>& a, Maybe<T>& b) { a.emplaceInit(mv(b)); } \
 bool isNone__##T(const Maybe<T>& a) { return a == kj::none; } \
 bool isSome__##T(const Maybe<T>& a) { return a != kj::none; } \
 bool eq__##T(const Maybe<T>& a, const Maybe<T>& b) { return a == b; } \
 void ifSome__##T(Maybe<T>& a) { KJ_IF_SOME(v, a) { use(v); } else { elseBranch(); } } \
 void ifSomeC__##T(const Maybe<T>& a) { KJ_IF_SOME(v, a) { use(v); } else { elseBranch(); } } \
 void ifSomeMove__##T(Maybe<T>& a) { KJ_IF_SOME(v, mv(a)) { use(v); } else { elseBranch(); } } \
 void unwrapRet__##T(Maybe<T>& a) { auto& x = KJ_UNWRAP_OR_RETURN(a); use(x); } \
 void unwrapOr__##T(Maybe<T>& a) { auto& x = KJ_UNWRAP_OR(a, { elseBranch(); return; }); use(x); } \
 void unwrapMove__##T(Maybe<T>& a) { T x = KJ_UNWRAP_OR(mv(a), { elseBranch(); return; }); use(x); } \
 void assertNN__##T(Maybe<T>& a) { auto& x = KJ_ASSERT_NONNULL(a); use(x); } \
 void requireNN__##T(Maybe<T>& a) { auto& x = KJ_REQUIRE_NONNULL(a); use(x); } \
 void assertNNMove__##T(Maybe<T>& a) { T x = KJ_ASSERT_NONNULL(mv(a)); use(x); } \
 T* orDef__##T(Maybe<T>& a, T& x) { return &a.orDefault(x); } \
 const T* orDefC__##T(const Maybe<T>& a, const T& x) { return &a.orDefault(x); } \
 T* orDefM__##T(Maybe<T>& a, T& x) { auto&& r = mv(a).orDefault(mv(x)); return &r; } \
 const T* orDefCM__##T(const Maybe<T>& a, const T& x) { auto&& r = mv(a).orDefault(mv(x)); return &r; } \
 T* orDefF__##T(Maybe<T>& a, T& x) { return &a.orDefault([&]() -> T& { return x; }); } \
 const T* orDefCF__##T(const Maybe<T>& a, const T& x) { return &a.orDefault([&]() -> const T& { return x; }); } \
 T* orDefMF__##T(Maybe<T>& a, T& x) { auto&& r = mv(a).orDefault([&]() -> T&& { return mv(x); }); return &r; } \
 Maybe<uint64_t> map__##T(Maybe<T>& a) { return a.map([](T& v) { return fn(v); }); } \
 Maybe<uint64_t> mapC__##T(const Maybe<T>& a) { return a.map([](const T& v) { return fn(v); }); } \
 Maybe<uint64_t> mapM__##T(Maybe<T>& a) { return mv(a).map([](T&& v) { return fn(v); }); } \
 Maybe<T&> refOf__##T(Maybe<T>& a) { return a; } \
 Maybe<const T&> refOfC__##T(const Maybe<T>& a) { return a; } \
 void obs_Maybe##T##Ref(const Maybe<T&>& m) { KJ_IF_SOME(v, m) see(&v); else seeNone(); } \
 void obs_Maybe##T##CRef(const Maybe<const T&>& m) { KJ_IF_SOME(v, m) see(&v); else seeNone(); } \
 Maybe<T&> rCopy__##T(Maybe<T&>& b) { return Maybe<T&>(b); } \
 Maybe<T&> rMove__##T(Maybe<T&>& b) { return Maybe<T&>(mv(b)); } \
 Maybe<const T&> rToConst__##T(Maybe<T&>& b) { return Maybe<const T&>(b); } \
 Maybe<const T&> rToConstM__##T(Maybe<T&>& b) { return Maybe<const T&>(mv(b)); } \
 Maybe<T&> rFrom__##T(T& x) { return x; } \
 Maybe<T&> rFromPtr__##T(T* x) { return Maybe<T&>(x); } \
 void rAssign__##T(Maybe<T&>& a, Maybe<T&>& b) { a = b; } \
 void rAssignM__##T(Maybe<T&>& a, Maybe<T&>& b) { a = mv(b); } \
 void rAssignVal__##T(Maybe<T&>& a, T& x) { a = x; } \
 void rAssignNone__##T(Maybe<T&>& a) { a = kj::none; } \
 void rAssignC__##T(Maybe<const T&>& a, const Maybe<T&>& b) { a = b; } \
 void rAssignCM__##T(Maybe<const T&>& a, Maybe<T&>& b) { a = mv(b); } \
 bool isNone__r##T(const Maybe<T&>& a) { return a == kj::none; } \
 void ifSome__r##T(Maybe<T&>& a) { KJ_IF_SOME(v, a) { use(v); } else { elseBranch(); } } \
 void ifSome__rp##T(T* a) { KJ_IF_SOME(v, a) { use(v); } else { elseBranch(); } } \
 T* orDef__r##T(Maybe<T&>& a, T& x) { return &a.orDefault(x); } \
 Maybe<uint64_t> map__r##T(Maybe<T&>& a) { return a.map([](T& v) { return fn(v); }); } \
 Maybe<uint64_t> mapC__r##T(const Maybe<T&>& a) { return a.map([](const T& v) { return fn(v); }); } \
 void assertNN__r##T(Maybe<T&>& a) { auto& x = KJ_ASSERT_NONNULL(a); use(x); }
COMMON(A) COMMON(B) COMMON(C) COMMON(M) COMMON(Q) COMMON(R)

#define COPYABLE(T) \
 Maybe<T> fromCopy__##T(const T& x) { return Maybe<T>(x); } \
 Maybe<T> fromCopyN__##T(T& x) { return Maybe<T>(x); } \
 Maybe<T> copy__##T(const Maybe<T>& b) { return Maybe<T>(b); } \
 Maybe<T> copyN__##T(Maybe<T>& b) { return Maybe<T>(b); } \
 void assignCopy__##T(Maybe<T>& a, const Maybe<T>& b) { a = b; } \
 void assignCopyN__##T(Maybe<T>& a, Maybe<T>& b) { a = b; } \
 void assignSelfC__##T(Maybe<T>& a) { a = static_cast<const Maybe<T>&>(a); } \
 void assignValC__##T(Maybe<T>& a, const T& x) { a = x; } \
 void assignValN__##T(Maybe<T>& a, T& x) { a = x; } \
 void assignOwnC__##T(Maybe<T>& a) { KJ_IF_SOME(v, a) a = v; } \
 void emplaceValC__##T(Maybe<T>& a, const T& x) { a.emplace(x); } \
 Maybe<T> fromRef__##T(Maybe<const T&>& b) { return Maybe<T>(static_cast<const Maybe<const T&>&>(b)); } \
 Maybe<T> fromRefM__##T(Maybe<T&>& b) { return Maybe<T>(mv(b)); }
COPYABLE(A) COPYABLE(B) COPYABLE(C) COPYABLE(Q) COPYABLE(R)
Maybe<A> copy__clone(const Maybe<A>& b) { return b.clone(); }
Maybe<Q> copy__cloneQ(const Maybe<Q>& b) { return b.clone(); }

// converting
void obs_MaybeA2(const Maybe<A2>& m) { KJ_IF_SOME(v, m) see(&v); else seeNone(); }
Maybe<A> move__cv(Maybe<A2>& b) { return Maybe<A>(mv(b)); }
Maybe<A> copy__cv(const Maybe<A2>& b) { return Maybe<A>(b); }
void assignMove__cv(Maybe<A>& a, Maybe<A2>& b) { a = mv(b); }
void assignCopy__cv(Maybe<A>& a, const Maybe<A2>& b) { a = b; }

// OneOf
typedef OneOf<A, B, C> O; typedef OneOf<C, A> O2; typedef OneOf<C, Q> OC;
void obs_O(const O& o) { if (o == nullptr) seeNone(); else if (o.is<A>()) see(&o.get<A>()); else if (o.is<B>()) see(&o.get<B>()); else if (o.is<C>()) see(&o.get<C>()); else unreachable(); }
void obs_O2(const O2& o) { if (o == nullptr) seeNone(); else if (o.is<A>()) see(&o.get<A>()); else if (o.is<C>()) see(&o.get<C>()); else unreachable(); }
O empty__O() { return O(); }
O fromMove__OA(A& x) { return O(mv(x)); }
O fromMove__OB(B& x) { return O(mv(x)); }
O fromMove__OC(C& x) { return O(mv(x)); }
O fromCopy__OA(const A& x) { return O(x); }
O fromCopyN__OB(B& x) { return O(x); }
O fromCopy__OC(const C& x) { return O(x); }
O oMove__O(O& b) { return O(mv(b)); }
O copy__O(const O& b) { return O(b); }
O copyN__O(O& b) { return O(b); }
O oMove__sub(O2& b) { return O(mv(b)); }
O copy__sub(const O2& b) { return O(b); }
O copyN__sub(O2& b) { return O(b); }
O copy__cloneO(const O& b) { return b.clone(); }
O copyN__cloneO(O& b) { return b.clone(); }
void dtor__O(O& a) { a.~O(); }
void oAssignMove__O(O& a, O& b) { a = mv(b); }
void assignCopy__O(O& a, const O& b) { a = b; }
void oAssignMove__sub(O& a, O2& b) { a = mv(b); }
void oAssignVal__A(O& a, A& x) { a = mv(x); }
void oAssignVal__C(O& a, C& x) { a = mv(x); }
void emplace__OA(O& a, uint64_t n) { a.init<A>(n); }
void emplace__OB(O& a, uint64_t n) { a.init<B>(n); }
void emplace__OC(O& a, uint64_t n) { a.init<C>(n); }
void emplaceVal__OA(O& a, A& x) { a.init<A>(mv(x)); }
Maybe<A&> oTry__A(O& a) { return a.tryGet<A>(); }
Maybe<const A&> oTryC__A(const O& a) { return a.tryGet<A>(); }
Maybe<B&> oTry__B(O& a) { return a.tryGet<B>(); }
Maybe<C&> oTry__C(O& a) { return a.tryGet<C>(); }
Maybe<A> oTryM__A(O& a) { return mv(a).tryGet<A>(); }
Maybe<C> oTryM__C(O& a) { return mv(a).tryGet<C>(); }
A* oGet__A(O& a) { return &a.get<A>(); }
B* oGet__B(O& a) { return &a.get<B>(); }
const C* oGetC__C(const O& a) { return &a.get<C>(); }
A* oGetM__A(O& a) { auto&& r = mv(a).get<A>(); return &r; }
bool oIs__A(const O& a) { return a.is<A>(); }
bool oIs__B(const O& a) { return a.is<B>(); }
bool oIs__C(const O& a) { return a.is<C>(); }
bool isNone__O(const O& a) { return a == nullptr; }
uint64_t oWhich__O(const O& a) { return (uint64_t)a.which(); }
void oSwitch__O(O& a) { KJ_SWITCH_ONEOF(a) { KJ_CASE_ONEOF(x, A) { use(x); } KJ_CASE_ONEOF(x, B) { use(x); } KJ_CASE_ONEOF(x, C) { use(x); } } }
void oSwitchC__O(const O& a) { KJ_SWITCH_ONEOF(a) { KJ_CASE_ONEOF(x, A) { use(x); } KJ_CASE_ONEOF(x, B) { use(x); } KJ_CASE_ONEOF(x, C) { use(x); } } }
void oSwitchM__O(O& a) { KJ_SWITCH_ONEOF(mv(a)) { KJ_CASE_ONEOF(x, A) { use(x); } KJ_CASE_ONEOF(x, B) { use(x); } KJ_CASE_ONEOF(x, C) { use(x); } } }
}
