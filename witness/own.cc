// One operation of the owning smart pointers per function (analysed by rules/p10.py).
// The name's prefix before "__" is the kind of owner returned (v = none).
#include <kj/memory.h>
#include <kj/refcount.h>
#include <kj/array.h>
namespace vp {
struct Base { virtual ~Base() noexcept(false); virtual void m(); int x; };
struct Derived: public Base { ~Derived() noexcept(false); };
struct Other { virtual ~Other() noexcept(false); int y; };
struct Multi: public Other, public Base { ~Multi() noexcept(false); };
struct Plain { int a, b; Plain(); ~Plain() noexcept(false); };
struct SD { static void dispose(Base* p); };
struct SDn { static void dispose(Base* p) noexcept; };
struct SDp { static void dispose(Plain* p); };
using kj::Own; using kj::mv;
// --- dynamic disposer
Own<Base> own__move(Own<Base>& a) { return Own<Base>(mv(a)); }
Own<const Base> own__moveConst(Own<Base>& a) { return Own<const Base>(mv(a)); }
Own<Base> own__moveUp(Own<Derived>& a) { return Own<Base>(mv(a)); }
Own<void> own__moveVoid(Own<Derived>& a) { return Own<void>(mv(a)); }
Own<const void> own__moveCVoid(Own<Derived>& a) { return Own<const void>(mv(a)); }
Own<void> own__moveVoidPlain(Own<Plain>& a) { return Own<void>(mv(a)); }
Own<Base> own__moveUpMulti(Own<Multi>& a) { return Own<Base>(mv(a)); }
Own<Plain> own__movePlain(Own<Plain>& a) { return Own<Plain>(mv(a)); }
void v__assign(Own<Base>& a, Own<Base>& b) { a = mv(b); }
void v__assignPlain(Own<Plain>& a, Own<Plain>& b) { a = mv(b); }
void v__assignNull(Own<Base>& a) { a = nullptr; }
void v__assignNullPlain(Own<Plain>& a) { a = nullptr; }
void d__dtor(Own<Base>& a) { a.~Own(); }
void d__dtorConst(Own<const Base>& a) { a.~Own(); }
void d__dtorVoid(Own<void>& a) { a.~Own(); }
void d__dtorPlain(Own<Plain>& a) { a.~Own(); }
Own<Derived> own__downcast(Own<Base>& a) { return a.downcast<Derived>(); }
Own<Base> own__default() { return Own<Base>(); }
Own<Base> own__fromStatic(Own<Base, SD>& a) { return mv(a); }
Own<Base> own__fromStaticMulti(Own<Multi, SD>& a) { return mv(a); }
void sa__fromStatic(Own<Base, SD>& a) { Own<Base> x = mv(a); }
void sa__fromStaticD(Own<Derived, SD>& a) { Own<Base> x = mv(a); }
Base* raw__disown(Own<Base>& a, const kj::Disposer& d) { return a.disown(&d); }
// --- static disposer
Own<Base, SD> sown__move(Own<Base, SD>& a) { return Own<Base, SD>(mv(a)); }
Own<Base, SD> sown__moveUp(Own<Derived, SD>& a) { return Own<Base, SD>(mv(a)); }
void v__sassign(Own<Base, SD>& a, Own<Base, SD>& b) { a = mv(b); }
void v__sassignN(Own<Base, SDn>& a, Own<Base, SDn>& b) { a = mv(b); }
void v__sassignNull(Own<Base, SD>& a) { a = nullptr; }
void v__sassignNullN(Own<Base, SDn>& a) { a = nullptr; }
void d__sdtor(Own<Base, SD>& a) { a.~Own(); }
void d__sdtorN(Own<Base, SDn>& a) { a.~Own(); }
Own<Derived, SD> sown__downcast(Own<Base, SD>& a) { return a.downcast<Derived>(); }
Base* raw__sdisown(Own<Base, SD>& a) { return a.disown<SD>(); }
// --- smart pointers to refcounted objects share Own's discipline
struct RC: public kj::Refcounted { int z; RC(int n): z(f(n)) {} static int f(int); kj::Rc<RC> self() { return addRefToThis(); } };
struct RCD: public RC { RCD(int n): RC(n) {} };
struct AC: public kj::AtomicRefcounted { int z; AC(int n): z(f(n)) {} static int f(int); const int q() const; };
struct ACD: public AC { ACD(int n): AC(n) {} };
kj::Rc<RC> own__rcMove(kj::Rc<RC>& a) { return kj::Rc<RC>(mv(a)); }
kj::Rc<RC> own__rcMoveUp(kj::Rc<RCD>& a) { return kj::Rc<RC>(mv(a)); }
void v__rcAssign(kj::Rc<RC>& a, kj::Rc<RC>& b) { a = mv(b); }
void v__rcAssignNull(kj::Rc<RC>& a) { a = nullptr; }
void d__rcDtor(kj::Rc<RC>& a) { a.~Rc(); }
Own<RC> own__rcToOwn(kj::Rc<RC>& a) { return a.toOwn(); }
kj::Rc<RCD> own__rcDowncast(kj::Rc<RC>& a) { return a.downcast<RCD>(); }
kj::Arc<AC> own__arcMove(kj::Arc<AC>& a) { return kj::Arc<AC>(mv(a)); }
kj::Arc<AC> own__arcMoveUp(kj::Arc<ACD>& a) { return kj::Arc<AC>(mv(a)); }
void v__arcAssign(kj::Arc<AC>& a, kj::Arc<AC>& b) { a = mv(b); }
void v__arcAssignNull(kj::Arc<AC>& a) { a = nullptr; }
void d__arcDtor(kj::Arc<AC>& a) { a.~Arc(); }
Own<const AC> own__arcToOwn(kj::Arc<AC>& a) { return a.toOwn(); }
kj::Arc<ACD> own__arcDowncast(kj::Arc<AC>& a) { return a.downcast<ACD>(); }
const AC* raw__arcDisown(kj::Arc<AC>& a) { return a.disown(); }
// --- arrays
struct Elem { Elem(); Elem(int); Elem(Elem&&); Elem(const Elem&); ~Elem() noexcept(false); int a, b; };
kj::Array<Elem> arr__move(kj::Array<Elem>& a) { return kj::Array<Elem>(mv(a)); }
kj::Array<const Elem> arr__moveConst(kj::Array<Elem>& a) { return kj::Array<const Elem>(mv(a)); }
void v__arrAssign(kj::Array<Elem>& a, kj::Array<Elem>& b) { a = mv(b); }
void v__arrAssignNull(kj::Array<Elem>& a) { a = nullptr; }
void d__arrDtor(kj::Array<Elem>& a) { a.~Array(); }
kj::Array<int> arr__moveInt(kj::Array<int>& a) { return kj::Array<int>(mv(a)); }
void v__arrAssignInt(kj::Array<int>& a, kj::Array<int>& b) { a = mv(b); }
void d__arrDtorInt(kj::Array<int>& a) { a.~Array(); }
kj::Array<kj::byte> arr__asBytes(kj::Array<char>& a) { return a.releaseAsBytes(); }
kj::Array<char> arr__asChars(kj::Array<kj::byte>& a) { return a.releaseAsChars(); }
kj::ArrayBuilder<Elem> bld__move(kj::ArrayBuilder<Elem>& a) { return kj::ArrayBuilder<Elem>(mv(a)); }
kj::ArrayBuilder<Elem> bld__fromArray(kj::Array<Elem>& a) { return kj::ArrayBuilder<Elem>(mv(a)); }
void v__bldAssign(kj::ArrayBuilder<Elem>& a, kj::ArrayBuilder<Elem>& b) { a = mv(b); }
void v__bldAssignNull(kj::ArrayBuilder<Elem>& a) { a = nullptr; }
void d__bldDtor(kj::ArrayBuilder<Elem>& a) { a.~ArrayBuilder(); }
kj::ArrayBuilder<int> bld__moveInt(kj::ArrayBuilder<int>& a) { return kj::ArrayBuilder<int>(mv(a)); }
void v__bldAssignInt(kj::ArrayBuilder<int>& a, kj::ArrayBuilder<int>& b) { a = mv(b); }
void d__bldDtorInt(kj::ArrayBuilder<int>& a) { a.~ArrayBuilder(); }
kj::Array<Elem> arr__finish(kj::ArrayBuilder<Elem>& a) { return a.finish(); }
kj::Array<int> arr__finishInt(kj::ArrayBuilder<int>& a) { return a.finish(); }
// --- field layout, through the public interface
Base* lay__own(Own<Base>& a) { return a.get(); }
Base* lay__sown(Own<Base, SD>& a) { return a.get(); }
RC* lay__rc(kj::Rc<RC>& a) { return a.get(); }
const AC* lay__arc(kj::Arc<AC>& a) { return a.get(); }
Elem* lay__arrBegin(kj::Array<Elem>& a) { return a.begin(); }
size_t lay__arrSize(kj::Array<Elem>& a) { return a.size(); }
Elem* lay__bldBegin(kj::ArrayBuilder<Elem>& a) { return a.begin(); }
Elem* lay__bldEnd(kj::ArrayBuilder<Elem>& a) { return a.end(); }
size_t lay__bldCap(kj::ArrayBuilder<Elem>& a) { return a.capacity(); }
// --- attachments: kept alive until after the object, destroyed in the order listed
void at__own(Own<Base>& a, Own<Base>& b, Own<Base>& c) { auto r = a.attach(mv(b), mv(c)); }
void at__rc(Own<RC>& a, Own<Base>& b, Own<Base>& c) { auto r = a.attachToThisReference(mv(b), mv(c)); }
void at__ref(Base& r, Own<Base>& b, Own<Base>& c) { auto x = kj::attachRef(r, mv(b), mv(c)); }
void at__val(Own<Base>& a, Own<Base>& b, Own<Base>& c) { auto x = kj::attachVal(mv(a), mv(b), mv(c)); }
void at__arr(kj::Array<Elem>& a, Own<Base>& b, Own<Base>& c) { auto x = a.attach(mv(b), mv(c)); }
void at__aptr(kj::ArrayPtr<Elem>& a, Own<Base>& b, Own<Base>& c) { auto x = a.attach(mv(b), mv(c)); }
Own<Base> atp__own(Own<Base>& a, Own<Base>& b) { return a.attach(mv(b)); }
Own<Base> atp__ref(Base& a, Own<Base>& b) { return kj::attachRef(a, mv(b)); }
kj::Array<Elem> atp__arr(kj::Array<Elem>& a, Own<Base>& b) { return a.attach(mv(b)); }
kj::Array<Elem> atp__aptr(kj::ArrayPtr<Elem>& a, Own<Base>& b) { return a.attach(mv(b)); }
// --- creation
void h__heap() { auto x = kj::heap<Plain>(); }
void h__heapCopy(Elem& e) { auto x = kj::heap(mv(e)); }
void freeBase(Base*) noexcept(false);
void h__disposeWith(Base* b) { auto x = kj::disposeWith<freeBase>(b); }
void h__space(kj::SpaceFor<Plain>& s) { auto x = s.construct(); }
// --- reference counts
Own<RC> rcx__new() { return kj::refcounted<RC>(1); }
kj::Rc<RC> rcx__newRc() { return kj::rc<RC>(1); }
Own<RC> rcx__addRef(RC& r) { return kj::addRef(r); }
kj::Rc<RC> rcx__rcAddRef(kj::Rc<RC>& r) { return r.addRef(); }
kj::Rc<RC> rcx__rcClone(kj::Rc<RC>& r) { return r.clone(); }
kj::Rc<RC> rcx__self(RC& r) { return r.self(); }
Own<AC> rcx__anew() { return kj::atomicRefcounted<AC>(1); }
kj::Arc<AC> rcx__anewArc() { return kj::arc<AC>(1); }
Own<AC> rcx__aaddRef(AC& r) { return kj::atomicAddRef(r); }
Own<const AC> rcx__aaddRefC(const AC& r) { return kj::atomicAddRef(r); }
kj::Arc<AC> rcx__arcAddRef(kj::Arc<AC>& r) { return r.addRef(); }
kj::Arc<AC> rcx__arcClone(kj::Arc<AC>& r) { return r.clone(); }
kj::Maybe<Own<const AC>> rcx__weak(const AC& r) { return kj::atomicAddRefWeak(r); }
kj::Arc<AC> rcx__reown(const AC* p) { return kj::Arc<AC>::reown(p); }
Own<Base> rcx__wrapped(kj::RefcountedWrapper<Own<Base>>& w) { return w.addWrappedRef(); }
Own<Plain> rcx__wrappedP(kj::RefcountedWrapper<Plain>& w) { return w.addWrappedRef(); }
bool sh__shared(RC& r) { return r.isShared(); }
bool sh__ashared(AC& r) { return r.isShared(); }
}
