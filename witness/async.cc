// Promises: one operation per function (analysed by rules/p16.py). Name: <spec>__<variant>.
// in*(x) reports an input, see*(x) the result; dep* is a dependency with an arbitrary outcome; fn/efn are continuations that may throw.
#include <kj/async.h>
namespace vp {
using namespace kj; using namespace kj::_;
typedef uint64_t T; typedef ExceptionOr<T> EO; typedef ExceptionOr<Void> EV;
void inVal(T) noexcept; void inNoVal() noexcept; void inExc(int) noexcept; void inNoExc() noexcept; void inX(int) noexcept; void inY(int) noexcept;
void seeVal(T) noexcept; void seeNoVal() noexcept; void seeExc(int) noexcept; void seeNoExc() noexcept; void seeBool(bool) noexcept; void step(int) noexcept; void seeP(const void*) noexcept; void seeN(size_t) noexcept;
inline void in(const EO& r) { KJ_IF_SOME(e, r.exception) inExc(e.getLine()); else inNoExc(); KJ_IF_SOME(v, r.value) inVal(v); else inNoVal(); }
inline void in(const EV& r) { KJ_IF_SOME(e, r.exception) inExc(e.getLine()); else inNoExc(); if (r.value != kj::none) inVal(0); else inNoVal(); }
inline void see(const EO& r) { KJ_IF_SOME(e, r.exception) seeExc(e.getLine()); else seeNoExc(); KJ_IF_SOME(v, r.value) seeVal(v); else seeNoVal(); }
inline void see(const EV& r) { KJ_IF_SOME(e, r.exception) seeExc(e.getLine()); else seeNoExc(); if (r.value != kj::none) seeVal(0); else seeNoVal(); }
bool isNoneE(const Exception& e) { return MaybeTraits<Exception>::isNone(e); }
size_t sizeofE() { return sizeof(Exception); }
#define LIVE(x) if (MaybeTraits<Exception>::isNone(x)) return; inX((x).getLine())
#define LIVEY(x) if (MaybeTraits<Exception>::isNone(x)) return; inY((x).getLine())

// a dependency with an arbitrary result
bool depHasVal(int) noexcept; bool depHasExc(int) noexcept; T depVal(int) noexcept; Exception depExc(int) noexcept; void depDestroy(int); void depReady(int) noexcept;
template <int I, typename R> struct DepN final: PromiseNode {
  Event* ev = nullptr;
  void destroy() override { depDestroy(I); }
  void onReady(Event* e) noexcept override { ev = e; depReady(I); }
  static void val(ExceptionOr<T>& r) { r.value = depVal(I); }
  static void val(ExceptionOr<Void>& r) { depVal(I); r.value = Void(); }
  void get(ExceptionOrValue& o) noexcept override { auto& r = o.as<R>(); if (depHasVal(I)) { val(r); if (depHasExc(I)) r.exception = depExc(I); } else r.exception = depExc(I); }
  void tracePromise(TraceBuilder&, bool) override {}
};
struct Hack: Event { using Event::fire; };
inline void fire(Event* e) { (e->*(&Hack::fire))(); }
typedef DepN<0, T> Dep; typedef DepN<1, T> Dep1; typedef DepN<0, Void> DepV;
#define DEP Dep d; Promise<T> p = PromiseNode::to<Promise<T>>(OwnPromiseNode(&d))
#define DEPV DepV d; Promise<void> p = PromiseNode::to<Promise<void>>(OwnPromiseNode(&d))
#define DEP1 Dep1 d1; Promise<T> q = PromiseNode::to<Promise<T>>(OwnPromiseNode(&d1))
template <typename P> inline void get(P&& promise, EO* = nullptr) { OwnPromiseNode n = PromiseNode::from(mv(promise)); { EO r; n->get(r); see(r); } step(9); }
inline void get(Promise<void>&& promise) { OwnPromiseNode n = PromiseNode::from(mv(promise)); { EV r; n->get(r); see(r); } step(9); }
T fn(T); T efn(int); T zfn(); T wfn(WaitScope&); Promise<T> pfn(T);
// functors whose lifetime is visible
void made(int) noexcept; void gone(int) noexcept;
template <int I> struct Life { bool real = false; Life() = default; Life(Life&& o): real(true) { made(I); } ~Life() noexcept { if (real) gone(I); } KJ_DISALLOW_COPY(Life); };
struct F: Life<1> { T operator()(T&& v) { return fn(v); } };
struct VF: Life<1> { void operator()(T&& v) { fn(v); } };
struct FV: Life<1> { T operator()() { return fn(0); } };
struct EF: Life<2> { T operator()(Exception&& e) { return efn(e.getLine()); } };
struct VEF: Life<2> { void operator()(Exception&& e) { efn(e.getLine()); } };
struct Att: Life<3> {};

// ExceptionOr
void eo__val(T x) { EO r(mv(x)); inVal(x); see(r); }
void eo__exc(Exception& x) { LIVE(x); EO r(false, mv(x)); see(r); }
void same__move(EO& a) { in(a); EO r(mv(a)); see(r); }
void same__assign(EO& a) { in(a); EO r; r = mv(a); see(r); }
void same__assignV(EV& a) { in(a); EV r; r = mv(a); see(r); }
void add__exc(EO& a, Exception& x) { LIVE(x); in(a); a.addException(mv(x)); see(a); }
void conv__val(EO& a) { in(a); seeVal(convertToReturn(mv(a))); }
void conv__void(EV& a) { in(a); convertToReturn(mv(a)); seeVal(0); }
// promises that already have a result
void eo__promiseVal(T x) { inVal(x); get(Promise<T>(mv(x))); }
void eo__promiseExc(Exception& x) { LIVE(x); get(Promise<T>(mv(x))); }
void eo__promiseVoidExc(Exception& x) { LIVE(x); get(Promise<void>(mv(x))); }
void eo__const() { inVal(4711); get(constPromise<T, 4711>()); }
void eo__readyNow() { inVal(0); get(Promise<void>(READY_NOW)); }
// continuations
void then__value() { DEP; get(p.then(F())); }
void then__void() { DEP; get(p.then(VF())); }
void then__fromVoid() { DEPV; get(p.then(FV())); }
void thenErr__value() { DEP; get(p.then(F(), EF())); }
void thenErr__void() { DEP; get(p.then(VF(), VEF())); }
void thenErr__fromVoid() { DEPV; get(p.then(FV(), EF())); }
void thenProp__value() { DEP; get(p.then(F(), PropagateException())); }
void catch__value() { DEP; get(p.catch_(EF())); }
void catch__void() { DEPV; get(p.catch_(VEF())); }
void pass__attach() { DEP; get(p.attach(Att())); }
void pass__attach2() { DEPV; get(p.attach(Att(), 5)); }
void pass__ignore() { DEP; get(p.ignoreResult()); }
// dropped without being run: the dependency goes first
void drop__then() { DEP; { auto q = p.then(F()); step(1); } step(9); }
void drop__thenErr() { DEP; { auto q = p.then(F(), EF()); step(1); } step(9); }
void drop__catch() { DEP; { auto q = p.catch_(EF()); step(1); } step(9); }
void drop__attach() { DEP; { auto q = p.attach(Att()); step(1); } step(9); }
void drop__fork() { DEP; { auto q = p.fork(); step(1); } step(9); }
void drop__forkBranch() { DEP; { auto q = p.fork().addBranch(); step(1); } step(9); }
void drop__eager() { DEP; { auto q = p.eagerlyEvaluate(nullptr); step(1); } step(9); }
void drop__chain3() { DEP; { auto q = p.then(F()).attach(Att()).catch_(EF()); step(1); } step(9); }
void drop__join() { DEP; DEP1; { auto x = p.exclusiveJoin(mv(q)); step(1); } step(9); }
// eager evaluation
void pass__eager() { DEP; auto q = p.eagerlyEvaluate(nullptr); fire(d.ev); get(mv(q)); }
void catch__eager() { DEP; auto q = p.eagerlyEvaluate(EF()); fire(d.ev); get(mv(q)); }
// fork: every branch sees the hub's result
void pass__fork() { DEP; ForkedPromise<T> f = p.fork(); auto b = f.addBranch(); fire(d.ev); get(mv(b)); }
void pass__forkVoid() { DEPV; ForkedPromise<void> f = p.fork(); auto b = f.addBranch(); fire(d.ev); get(mv(b)); }
void pass__forkLate() { DEP; ForkedPromise<T> f = p.fork(); auto b = f.addBranch(); fire(d.ev); auto c = f.addBranch(); { OwnPromiseNode n = PromiseNode::from(mv(b)); EO r; n->get(r); } get(mv(c)); }
void pass__forkGone() { DEP; auto b = ({ ForkedPromise<T> f = p.fork(); f.addBranch(); }); fire(d.ev); get(mv(b)); }
void forkHas__branches() { DEP; ForkedPromise<T> f = p.fork(); seeBool(f.hasBranches()); { auto b = f.addBranch(); seeBool(f.hasBranches()); auto c = f.addBranch(); seeBool(f.hasBranches()); } seeBool(f.hasBranches()); }
// fulfilling
struct Ad { Ad(PromiseFulfiller<T>& f, PromiseFulfiller<T>*& out) { out = &f; } };
#define ADAPTER PromiseFulfiller<T>* f; Promise<T> p = newAdaptedPromise<T, Ad>(f)
#define WAITING seeBool(f->isWaiting())
#define X LIVE(x)
#define Y LIVEY(y)
#define VX inVal(x)
#define VY step(2)
#define FIRST(name, MK) \
void first__##name##F(T x) { VX; MK; WAITING; f->fulfill(mv(x)); WAITING; get(mv(p)); } \
void first__##name##R(Exception& x) { X; MK; WAITING; f->reject(mv(x)); WAITING; get(mv(p)); } \
void first__##name##FF(T x, T y) { VX; MK; WAITING; f->fulfill(mv(x)); f->fulfill(mv(y)); WAITING; get(mv(p)); } \
void first__##name##FR(T x, Exception& y) { VX; Y; MK; WAITING; f->fulfill(mv(x)); f->reject(mv(y)); WAITING; get(mv(p)); } \
void first__##name##RF(Exception& x, T y) { X; MK; WAITING; f->reject(mv(x)); f->fulfill(mv(y)); WAITING; get(mv(p)); } \
void first__##name##RR(Exception& x, Exception& y) { X; Y; MK; WAITING; f->reject(mv(x)); f->reject(mv(y)); WAITING; get(mv(p)); }
FIRST(adapter, ADAPTER)
#define PAF auto paf = newPromiseAndFulfiller<T>(); auto& f = paf.fulfiller; auto& p = paf.promise
FIRST(paf, PAF)
void early__get() { ADAPTER; get(mv(p)); }
// the fulfiller outlives the promise: nothing happens
void after__F(T x) { PAF; { auto q = mv(p); } WAITING; f->fulfill(mv(x)); WAITING; }
void after__R(Exception& x) { X; PAF; { auto q = mv(p); } WAITING; f->reject(mv(x)); WAITING; }
void pafDrop__promiseFirst() { PAF; step(1); { auto q = mv(p); } { auto g = mv(f); } step(9); }
void pafDrop__fulfillerFirst() { PAF; step(1); { auto g = mv(f); } { auto q = mv(p); } step(9); }
void pafDrop__fulfilled(T x) { PAF; step(1); f->fulfill(mv(x)); { auto g = mv(f); } { auto q = mv(p); } step(9); }
// a fulfiller dropped without being called rejects the promise
void abandoned__paf() { PAF; { auto g = mv(f); } get(mv(p)); }
// throwing functions
void thrown(Exception&&) noexcept;
void evalNow__value() { auto p = evalNow([]() -> T { return fn(0); }); get(mv(p)); }
void rejectIf__throws() { ADAPTER; bool b = f->rejectIfThrows([]() { fn(0); }); seeBool(b); seeBool(f->isWaiting()); if (!b) get(mv(p)); }
// trace
void trace__add(void** p, size_t n, void* x) { TraceBuilder b(arrayPtr(p, n)); seeBool(b.full()); b.add(x); seeN(b.finish().size()); seeP(b.finish().begin()); if (n > 0) seeP(p[0]); seeBool(b.full()); }

// arena placement: a node appended next to a smaller or larger one
template <int N> struct Big: Life<4> { char b[N]; Big() { b[0] = 1; b[N-1] = 2; } Big(Big&& o): Life<4>(mv(o)) { for (int i = 0; i < 1; i++) { b[0] = o.b[0]; b[N-1] = o.b[N-1]; } } T operator()(T&& v) { return fn(v); } };
#define BIG(N) void drop__big##N() { DEP; { auto q = p.then(F()).then(Big<N>()); step(1); } step(9); } void big__get##N() { DEP; get(p.then(F()).then(Big<N>())); }
BIG(400) BIG(872) BIG(880) BIG(888) BIG(896) BIG(904) BIG(912) BIG(920) BIG(928) BIG(936) BIG(944) BIG(952) BIG(960) BIG(968) BIG(976) BIG(984) BIG(992) BIG(1000) BIG(1100)
void drop__big3() { DEP; { auto q = p.then(Big<300>()).then(Big<300>()).then(Big<300>()); step(1); } step(9); }
void drop__big4() { DEP; { auto q = p.then(Big<1100>()).then(F()).then(Big<1100>()); step(1); } step(9); }

// readiness: the registered event is armed exactly once
struct Ev final: Event { Ev(): Event({}) {} Maybe<Own<Event>> fire() override { return kj::none; } void traceEvent(TraceBuilder&) override {} };
void armed__beforeF(T x) { ADAPTER; Ev ev; OwnPromiseNode n = PromiseNode::from(mv(p)); n->onReady(&ev); step(1); f->fulfill(mv(x)); step(2); f->fulfill(0); step(9); }
void armed__beforeR(Exception& x) { X; ADAPTER; Ev ev; OwnPromiseNode n = PromiseNode::from(mv(p)); n->onReady(&ev); step(1); f->reject(mv(x)); step(2); f->fulfill(0); step(9); }
void armed__after(T x) { ADAPTER; Ev ev; OwnPromiseNode n = PromiseNode::from(mv(p)); f->fulfill(mv(x)); step(1); n->onReady(&ev); step(2); step(9); }
void armed__paf(T x) { PAF; Ev ev; OwnPromiseNode n = PromiseNode::from(mv(p)); n->onReady(&ev); step(1); f->fulfill(mv(x)); step(2); f->fulfill(0); step(9); }

// split
typedef kj::Tuple<T, T> TT;
struct DepT final: PromiseNode {
  Event* ev = nullptr;
  void destroy() override { depDestroy(0); }
  void onReady(Event* e) noexcept override { ev = e; depReady(0); }
  void get(ExceptionOrValue& o) noexcept override { auto& r = o.as<TT>(); if (depHasVal(0)) { r.value = kj::tuple(depVal(0), depVal(1)); if (depHasExc(0)) r.exception = depExc(0); } else r.exception = depExc(0); }
  void tracePromise(TraceBuilder&, bool) override {}
};
#define DEPT DepT d; Promise<TT> p = PromiseNode::to<Promise<TT>>(OwnPromiseNode(&d))
void split__0() { DEPT; auto q = p.split(); fire(d.ev); get(mv(kj::get<0>(q))); }
void split__1() { DEPT; auto q = p.split(); fire(d.ev); get(mv(kj::get<1>(q))); }

// fork of a reference-counted value: each branch gets its own reference
void* addRefd(const void*) noexcept; void released(const void*) noexcept;
struct Rf { struct D: Disposer { void disposeImpl(void* p) const override { released(p); } }; static const D dd; Own<Rf> addRef() { return Own<Rf>((Rf*)addRefd(this), dd); } };
const Rf::D Rf::dd;
void copyRef__own(Rf* x) { if (x == nullptr) return; Own<Rf> a(x, Rf::dd); { auto b = copyOrAddRef(a); seeP(b.get()); } step(9); }
void copyRef__maybe(Rf* x) { if (x == nullptr) return; Maybe<Own<Rf>> a = Own<Rf>(x, Rf::dd); { auto b = copyOrAddRef(a); KJ_IF_SOME(c, b) seeP(c.get()); else seeNoVal(); } step(9); }
void copyRef__none() { Maybe<Own<Rf>> a; auto b = copyOrAddRef(a); if (b == kj::none) seeNoVal(); else seeVal(1); step(9); }

// wait: the loop runs the promise and stores its result
void waitStub(OwnPromiseNode&& n, ExceptionOrValue& r) { OwnPromiseNode m = mv(n); m->get(r); }
void wait__value(WaitScope& w) { DEP; T v = p.wait(w); seeVal(v); }
void wait__void(WaitScope& w) { DEPV; p.wait(w); seeVal(0); }
// join
inline Array<Promise<T>> two(Promise<T>&& a, Promise<T>&& b) { auto r = heapArrayBuilder<Promise<T>>(2); r.add(mv(a)); r.add(mv(b)); return r.finish(); }
template <typename P> inline void getArr(P&& promise) { OwnPromiseNode n = PromiseNode::from(mv(promise)); { ExceptionOr<Array<T>> r; n->get(r); KJ_IF_SOME(e, r.exception) seeExc(e.getLine()); else seeNoExc(); KJ_IF_SOME(v, r.value) { seeN(v.size()); seeVal(v[0]); seeVal(v[1]); } else seeNoVal(); } step(9); }
void joined__lazy() { DEP; DEP1; auto x = joinPromises(two(mv(p), mv(q))); fire(d.ev); step(1); fire(d1.ev); getArr(mv(x)); }
void joined__failFast() { DEP; DEP1; auto x = joinPromisesFailFast(two(mv(p), mv(q))); fire(d.ev); step(1); fire(d1.ev); getArr(mv(x)); }
void race__first() { DEP; DEP1; auto x = raceSuccessful(two(mv(p), mv(q))); fire(d.ev); get(mv(x)); }
void race__second() { DEP; DEP1; auto x = raceSuccessful(two(mv(p), mv(q))); fire(d1.ev); get(mv(x)); }
void exclusive__first() { DEP; DEP1; auto x = p.exclusiveJoin(mv(q)); fire(d.ev); get(mv(x)); }
void exclusive__second() { DEP; DEP1; auto x = p.exclusiveJoin(mv(q)); fire(d1.ev); get(mv(x)); }

#define ARM2(name, op) void ready2__##name() { DEP; DEP1; OwnPromiseNode n = PromiseNode::from(op(two(mv(p), mv(q)))); Ev ev; n->onReady(&ev); step(0); fire(d.ev); step(1); fire(d1.ev); step(2); step(9); }
ARM2(lazy, joinPromises) ARM2(failFast, joinPromisesFailFast) ARM2(race, raceSuccessful)
void ready2__exclusive() { DEP; DEP1; OwnPromiseNode n = PromiseNode::from(p.exclusiveJoin(mv(q))); Ev ev; n->onReady(&ev); step(0); fire(d1.ev); step(1); step(2); step(9); }
// every branch of a fork gets its own copy
struct Cp { T v; explicit Cp(T v): v(v) {} Cp(const Cp& o): v(o.v) {} Cp(Cp&& o): v(o.v) { o.v = 0; } Cp& operator=(Cp&& o) { v = o.v; o.v = 0; return *this; } };
struct DepC final: PromiseNode {
  Event* ev = nullptr;
  void destroy() override { depDestroy(0); }
  void onReady(Event* e) noexcept override { ev = e; depReady(0); }
  void get(ExceptionOrValue& o) noexcept override { auto& r = o.as<Cp>(); if (depHasVal(0)) { r.value = Cp(depVal(0)); if (depHasExc(0)) r.exception = depExc(0); } else r.exception = depExc(0); }
  void tracePromise(TraceBuilder&, bool) override {}
};
inline void getC(Promise<Cp>&& promise) { OwnPromiseNode n = PromiseNode::from(mv(promise)); { ExceptionOr<Cp> r; n->get(r); KJ_IF_SOME(e, r.exception) seeExc(e.getLine()); else seeNoExc(); KJ_IF_SOME(v, r.value) seeVal(v.v); else seeNoVal(); } step(9); }
void forkCopy__two() { DepC d; Promise<Cp> p = PromiseNode::to<Promise<Cp>>(OwnPromiseNode(&d)); ForkedPromise<Cp> f = p.fork(); auto b = f.addBranch(); auto c = f.addBranch(); fire(d.ev); getC(mv(b)); getC(mv(c)); }

// cross-thread execution
struct XF: Life<1> { T operator()() { return fn(0); } };
struct XVF: Life<1> { void operator()() { fn(0); } };
struct XPF: Life<1> { Promise<T> operator()() { return pfn(0); } };
struct XH: XThreadEvent { using XThreadEvent::execute; };
void sendStub(XThreadEvent& e) { (e.*(&XH::execute))(); }   // the target thread runs the function
void xexec__value(const Executor& ex, EventLoop& l) { { XThreadEventImpl<XF> n(XF(), ex, l, {}); seeBool(n.execute() == kj::none); PromiseNode& pn = n; { EO r; pn.get(r); see(r); } step(1); } step(9); }
void xexec__void(const Executor& ex, EventLoop& l) { { XThreadEventImpl<XVF> n(XVF(), ex, l, {}); seeBool(n.execute() == kj::none); PromiseNode& pn = n; { EV r; pn.get(r); see(r); } step(1); } step(9); }
void xsync__value(const Executor& ex) { T v = ex.executeSync(XF()); seeVal(v); step(9); }
void xasync__value(const Executor& ex) { { auto p = ex.executeAsync(XF()); step(1); } step(9); }
void xasync__promise(const Executor& ex) { { auto p = ex.executeAsync(XPF()); step(1); } step(9); }
// cross-thread fulfilling
void xpafDrop__fulfiller(const Executor& ex) { auto paf = ex.newPromiseAndCrossThreadFulfiller<T>(); step(1); { auto g = mv(paf.fulfiller); } step(2); get(mv(paf.promise)); }
void xpaf__F(const Executor& ex, T x) { auto paf = ex.newPromiseAndCrossThreadFulfiller<T>(); inVal(x); paf.fulfiller->fulfill(mv(x)); step(2); get(mv(paf.promise)); }
void xpaf__R(const Executor& ex, Exception& x) { X; auto paf = ex.newPromiseAndCrossThreadFulfiller<T>(); paf.fulfiller->reject(mv(x)); step(2); get(mv(paf.promise)); }

// fibers
struct WF: Life<1> { T operator()(WaitScope& w) { return wfn(w); } };
void fiberDrop__f() { { auto p = startFiber(65536, WF()); step(1); } step(9); }

// coroutines
typedef Coroutine<T, DefaultCoroutineAllocator> Co; typedef Coroutine<void, DefaultCoroutineAllocator> CoV;
void eo__coReturn(T x) { inVal(x); Co c((stdcoro::coroutine_handle<>())); c.return_value(x); PromiseNode& n = c; EO r; n.get(r); see(r); }
void eo__coReturnVoid() { inVal(0); CoV c((stdcoro::coroutine_handle<>())); c.return_void(); PromiseNode& n = c; EV r; n.get(r); see(r); }
void await__value() { DEP; Co c((stdcoro::coroutine_handle<>())); auto a = c.await_transform(mv(p)); T v = a.await_resume(); seeVal(v); }
void await__void() { DEPV; Co c((stdcoro::coroutine_handle<>())); auto a = c.await_transform(mv(p)); a.await_resume(); seeVal(0); }
}
