// One container operation per function (analysed by rules/p12.py together with kj/array.c++).
#include <kj/array.h>
#include <kj/vector.h>
namespace vp {
using kj::mv; using kj::Array; using kj::ArrayBuilder; using kj::Vector; using kj::ArrayPtr;
// constructors and the destructor may throw
struct Elem { Elem(); Elem(int, int); Elem(Elem&&); Elem(const Elem&); ~Elem() noexcept(false); long v; };
// nothing throws
struct NElem { NElem() noexcept; NElem(NElem&&) noexcept; NElem(const NElem&) noexcept; ~NElem() noexcept; long v; };
Elem mapFn(const int& x);
Elem& elemAt(const void*);
struct It { const int* p; Elem operator*() const; It operator++(int) { It r = *this; ++p; return r; } It& operator++() { ++p; return *this; } bool operator!=(const It& o) const { return p != o.p; } bool operator==(const It& o) const { return p == o.p; } long operator-(const It& o) const { return p - o.p; } };

const void* lay__arrBegin(Array<Elem>& a) { return a.begin(); }
size_t lay__arrSize(Array<Elem>& a) { return a.size(); }
const void* lay__bldBegin(ArrayBuilder<Elem>& a) { return a.begin(); }
const void* lay__bldEnd(ArrayBuilder<Elem>& a) { return a.end(); }
size_t lay__bldCap(ArrayBuilder<Elem>& a) { return a.capacity(); }
const void* lay__vecBegin(Vector<Elem>& a) { return a.begin(); }

#define OPS(T, X) \
void b##X##__add(ArrayBuilder<T>& b) { b.add(); } \
void b##X##__addCopy(ArrayBuilder<T>& b, const T& e) { b.add(e); } \
void b##X##__addMove(ArrayBuilder<T>& b, T& e) { b.add(mv(e)); } \
void b##X##__addAllCopy(ArrayBuilder<T>& b, const T* s, const T* e) { b.addAll(s, e); } \
void b##X##__addAllPtr(ArrayBuilder<T>& b, T* s, T* e) { b.addAll(kj::arrayPtr(s, e)); } \
void b##X##__addAllArr(ArrayBuilder<T>& b, Array<T>& a) { b.addAll(a); } \
void b##X##__addAllArrMove(ArrayBuilder<T>& b, Array<T>& a) { b.addAll(mv(a)); } \
void b##X##__removeLast(ArrayBuilder<T>& b) { b.removeLast(); } \
void b##X##__truncate(ArrayBuilder<T>& b, size_t n) { b.truncate(n); } \
void b##X##__resize(ArrayBuilder<T>& b, size_t n) { b.resize(n); } \
void b##X##__clear(ArrayBuilder<T>& b) { b.clear(); } \
Array<T> b##X##__finish(ArrayBuilder<T>& b) { return b.finish(); } \
void b##X##__dtor(ArrayBuilder<T>& b) { b.~ArrayBuilder(); } \
void b##X##__null(ArrayBuilder<T>& b) { b = nullptr; } \
void b##X##__assign(ArrayBuilder<T>& b, ArrayBuilder<T>& c) { b = mv(c); } \
void v##X##__add(Vector<T>& v) { v.add(); } \
void v##X##__addCopy(Vector<T>& v, const T& e) { v.add(e); } \
void v##X##__addMove(Vector<T>& v, T& e) { v.add(mv(e)); } \
void v##X##__addAllCopy(Vector<T>& v, const T* s, const T* e) { v.addAll(s, e); } \
void v##X##__addAllArr(Vector<T>& v, Array<T>& a) { v.addAll(a); } \
void v##X##__addAllArrMove(Vector<T>& v, Array<T>& a) { v.addAll(mv(a)); } \
void v##X##__addAllVec(Vector<T>& v, Vector<T>& a) { v.addAll(a); } \
void v##X##__removeLast(Vector<T>& v) { v.removeLast(); } \
void v##X##__truncate(Vector<T>& v, size_t n) { v.truncate(n); } \
void v##X##__resize(Vector<T>& v, size_t n) { v.resize(n); } \
void v##X##__reserve(Vector<T>& v, size_t n) { v.reserve(n); } \
void v##X##__clear(Vector<T>& v) { v.clear(); } \
Array<T> v##X##__releaseAsArray(Vector<T>& v) { return v.releaseAsArray(); } \
void v##X##__null(Vector<T>& v) { v = nullptr; } \
void v##X##__dtor(Vector<T>& v) { v.~Vector(); } \
Vector<T> mk##X##__vec(size_t n) { return Vector<T>(n); } \
Vector<T> mk##X##__vecFrom(Array<T>& a) { return Vector<T>(mv(a)); } \
ArrayBuilder<T> mk##X##__bld(size_t n) { return kj::heapArrayBuilder<T>(n); } \
Array<T> mk##X##__heap(size_t n) { return kj::heapArray<T>(n); } \
Array<T> mk##X##__copyN(const T* s, size_t n) { return kj::heapArray(s, n); } \
Array<T> mk##X##__copyM(T* s, size_t n) { return kj::heapArray(s, n); } \
Array<T> mk##X##__copyP(const T* s, const T* e) { return kj::heapArray<T>(kj::arrayPtr(s, e)); } \
Array<T> mk##X##__copyQ(T* s, T* e) { return kj::heapArray(kj::arrayPtr(s, e)); } \
Array<T> mk##X##__copyIt(const T* s, const T* e) { return kj::heapArray<T>(s, e); } \
Array<T> mk##X##__arr3(T& x, T& y, const T& z) { return kj::arr(mv(x), mv(y), z); } \
Array<T> mk##X##__arrOf(T& x, const T& z) { return kj::arrOf<T>(mv(x), z); } \
void dr##X##__arr(Array<T>& a) { a = nullptr; } \
void dr##X##__arrD(Array<T>& a) { a.~Array(); }
OPS(Elem, E)
OPS(NElem, N)
OPS(long, L)
Array<Elem> mkE__map(const int* s, const int* e) { return KJ_MAP(x, kj::arrayPtr(s, e)) { return mapFn(x); }; }
Array<Elem> mkE__map3(const int (&a)[3]) { return KJ_MAP(x, a) { return mapFn(x); }; }
Array<Elem> mkE__clone(const Elem* s, const Elem* e) { return kj::arrayPtr(s, e).clone(); }
Array<Elem> mkE__iter(const int* s, const int* e) { return kj::heapArray<Elem>(It{s}, It{e}); }
void bE__addAllIt(ArrayBuilder<Elem>& b, const int* s, const int* e) { b.addAll(It{s}, It{e}); }
void vE__addAllIt(Vector<Elem>& v, const int* s, const int* e) { v.addAll(It{s}, It{e}); }
void bE__addTwo(ArrayBuilder<Elem>& b, int x, int y) { b.add(x, y); }
}
