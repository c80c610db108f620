// The typed capability interface, over hooks that record every call (analysed by rules/p32.py, -fno-access-control).
#include "wire.h"
#include <capnp/persistent.capnp.h>
typedef capnp::Persistent<> PI; typedef PI::SaveParams PP; typedef PI::SaveResults RR; typedef capnp::AnyPointer AP;
using kj::Own; using kj::Maybe; using kj::Promise;
// who was disposed, how often; who was called, in what order
enum { A, B, O, RQ, PL, RS, CX, SV, PL2, NOBJ };
enum Call { C_NONE, NEWCALL, ADDREF, SEND, SENDSTREAM, SENDPIPE, PARAMS, RELEASE, RESULTS, TAIL, SETPIPE, P_ADDREF, PIPECAP, MAKELOCAL, MAKEREV, ISSHARED, REVSHARED, REVOKE, REVOKEX, PROMCLIENT, PROMPIPE, NEWPB, ADDINT, LOCALSRV, SYNCSRV, UNIMPL1, UNIMPL2, UNIMPL3, SAVE };
struct Ev { int call; const void* obj; uint64_t iid; unsigned mid; bool has; uint64_t words; unsigned caps; bool h1, h2; const void* arg; };
static Ev ev[8]; static int en; static int gone[NOBJ];
static Ev& log(int c, const void* o) { Ev& e = ev[en++]; e.call = c; e.obj = o; e.arg = nullptr; return e; }
static void size(Ev& e, const Maybe<capnp::MessageSize>& s) { e.has = false; KJ_IF_SOME(x, s) { e.has = true; e.words = x.wordCount; e.caps = x.capCount; } }
struct Dsp final: kj::Disposer { int id; Dsp(int i): id(i) {} void disposeImpl(void*) const override { gone[id]++; } };
struct World;
static World* w;
struct GPipe final: capnp::PipelineHook { int id; GPipe(int i): id(i) {} Own<PipelineHook> addRef() override; Own<capnp::ClientHook> getPipelinedCap(kj::ArrayPtr<const capnp::PipelineOp>) override; Own<capnp::ClientHook> getPipelinedCap(kj::Array<capnp::PipelineOp>&&) override; };
struct GResp final: capnp::ResponseHook { ~GResp() noexcept(false) {} };
struct GReq final: capnp::RequestHook { GReq(): RequestHook((void*)CAP2) {}
  capnp::RemotePromise<AP> send() override; Promise<void> sendStreaming() override; AP::Pipeline sendForPipeline() override; };
struct GCli final: capnp::ClientHook { int id; GCli(int i): ClientHook((void*)CAP2), id(i) {}
  capnp::Request<AP, AP> newCall(uint64_t i, uint16_t m, Maybe<capnp::MessageSize> s, CallHints h) override;
  VoidPromiseAndPipeline call(uint64_t, uint16_t, Own<capnp::CallContextHook>&&, CallHints) override { NEVER; __builtin_trap(); }
  Maybe<ClientHook&> getResolved() override { NEVER; return kj::none; }
  Maybe<Promise<Own<ClientHook>>> whenMoreResolved() override { NEVER; return kj::none; }
  Own<ClientHook> addRef() override;
  Maybe<int> getFd() override { NEVER; return kj::none; }
  void debugInfo(kj::Vector<kj::ConstString>&) override { NEVER; } };
struct GCtx final: capnp::CallContextHook {
  AP::Reader getParams() override { log(PARAMS, this); return AP::Reader(mkPR(0)); }
  void releaseParams() override { log(RELEASE, this); }
  AP::Builder getResults(Maybe<capnp::MessageSize> s) override { size(log(RESULTS, this), s); return AP::Builder(mkPB(0)); }
  Promise<void> tailCall(Own<capnp::RequestHook>&& r) override;
  void setPipeline(Own<capnp::PipelineHook>&& p) override { log(SETPIPE, this).arg = p.get(); auto q = kj::mv(p); }
  Promise<AP::Pipeline> onTailCall() override { NEVER; __builtin_trap(); }
  capnp::ClientHook::VoidPromiseAndPipeline directTailCall(Own<capnp::RequestHook>&&) override { NEVER; __builtin_trap(); }
  Own<CallContextHook> addRef() override { NEVER; __builtin_trap(); } };
struct GSrv final: PI::Server { Promise<void> save(SaveContext c) override; };
// the result of a call: a value or a failure
namespace vp { kj::Exception depExc(int) noexcept; }
static int gets, kills;
static bool fails;
template <typename R> struct GNode final: kj::_::PromiseNode { void destroy() override { kills++; } void onReady(kj::_::Event*) noexcept override {} void tracePromise(kj::_::TraceBuilder&, bool) override {}
  void get(kj::_::ExceptionOrValue& o) noexcept override; };
struct World {
  Dsp d[NOBJ] = { Dsp(0), Dsp(1), Dsp(2), Dsp(3), Dsp(4), Dsp(5), Dsp(6), Dsp(7), Dsp(8) };
  GCli a{A}, b{B}, o{O}; GReq rq; GPipe pl{PL}, pl2{PL2}; GResp rs; GCtx cx; GSrv sv; GNode<capnp::Response<AP>> node; GNode<kj::_::Void> vnode; GNode<void*> pnode;
  Own<capnp::ClientHook> own(int i) { return Own<capnp::ClientHook>(i == A ? &a : i == B ? &b : &o, d[i]); }
  Own<capnp::RequestHook> req() { return Own<capnp::RequestHook>(&rq, d[RQ]); }
  Own<capnp::PipelineHook> pipe(int i = PL) { return Own<capnp::PipelineHook>(i == PL ? &pl : &pl2, d[i]); }
  Own<capnp::ResponseHook> resp() { return Own<capnp::ResponseHook>(&rs, d[RS]); }
  Own<GSrv> srv() { return Own<GSrv>(&sv, d[SV]); }
  Promise<void> vp() { return kj::_::PromiseNode::to<Promise<void>>(kj::_::OwnPromiseNode(&vnode)); }
};
template <typename R> void put(kj::_::ExceptionOrValue& o, R&& r) { o.as<R>().value = kj::mv(r); }
template <> void GNode<capnp::Response<AP>>::get(kj::_::ExceptionOrValue& o) noexcept { gets++; fails = nd(80); if (fails) o.addException(depExc(0)); else put(o, capnp::Response<AP>(AP::Reader(mkPR(0)), w->resp())); }
template <> void GNode<kj::_::Void>::get(kj::_::ExceptionOrValue& o) noexcept { gets++; fails = nd(80); if (fails) o.addException(depExc(0)); else put(o, kj::_::Void()); }
static bool srvNull, shared; static int rev[NOBJ]; static const void* asked; static const void* reason;
template <> void GNode<void*>::get(kj::_::ExceptionOrValue& o) noexcept { gets++; fails = nd(80); srvNull = nd(81); if (fails) o.addException(depExc(0)); else { void* p = srvNull ? nullptr : (void*)&w->sv; put(o, kj::mv(p)); } }
Own<capnp::PipelineHook> GPipe::addRef() { log(P_ADDREF, this); return w->pipe(PL2); }
Own<capnp::ClientHook> GPipe::getPipelinedCap(kj::ArrayPtr<const capnp::PipelineOp> ops) { log(PIPECAP, this).words = ops.size(); return w->own(B); }
Own<capnp::ClientHook> GPipe::getPipelinedCap(kj::Array<capnp::PipelineOp>&& ops) { log(PIPECAP, this).words = ops.size(); return w->own(B); }
capnp::RemotePromise<AP> GReq::send() { log(SEND, this); return capnp::RemotePromise<AP>(kj::_::PromiseNode::to<Promise<capnp::Response<AP>>>(kj::_::OwnPromiseNode(&w->node)), AP::Pipeline(w->pipe())); }
Promise<void> GReq::sendStreaming() { log(SENDSTREAM, this); return w->vp(); }
AP::Pipeline GReq::sendForPipeline() { log(SENDPIPE, this); return AP::Pipeline(w->pipe()); }
capnp::Request<AP, AP> GCli::newCall(uint64_t i, uint16_t m, Maybe<capnp::MessageSize> s, CallHints h) { Ev& e = log(NEWCALL, this); e.iid = i; e.mid = m; size(e, s); e.h1 = h.noPromisePipelining; e.h2 = h.onlyPromisePipeline; return capnp::Request<AP, AP>(AP::Builder(mkPB(0)), w->req()); }
Own<capnp::ClientHook> GCli::addRef() { log(ADDREF, this); return w->own(B); }
Promise<void> GCtx::tailCall(Own<capnp::RequestHook>&& r) { log(TAIL, this).arg = r.get(); auto q = kj::mv(r); return w->vp(); }
Promise<void> GSrv::save(SaveContext c) { log(SAVE, this).arg = c.hook; return w->vp(); }
namespace capnp {
ResponseHook::~ResponseHook() noexcept(false) {}
ClientHook::ClientHook(const void* b): brand(b) {}
Capability::Client::Client(decltype(nullptr)) {}
Own<ClientHook> Capability::Client::makeLocalClient(Own<Capability::Server>&& s) { Ev& e = log(MAKELOCAL, nullptr); e.arg = s.get(); auto q = kj::mv(s); return w->own(A); }
Own<ClientHook> Capability::Client::makeRevocableLocalClient(Capability::Server& s) { log(MAKEREV, nullptr).arg = &s; return w->own(A); }
bool Capability::Client::isLocalClientShared(ClientHook& h) { MUST(gone[((GCli&)h).id] == 0); asked = &h; return shared; }
void Capability::Client::revokeLocalClientIfShared(ClientHook& h) { MUST(gone[((GCli&)h).id] == 0); if (shared) rev[((GCli&)h).id]++; }
void Capability::Client::revokeLocalClient(ClientHook& h) { MUST(gone[((GCli&)h).id] == 0); rev[((GCli&)h).id]++; }
void Capability::Client::revokeLocalClient(ClientHook& h, kj::Exception&& x) { MUST(gone[((GCli&)h).id] == 0); rev[((GCli&)h).id]++; reason = &x; }
Own<ClientHook> newLocalPromiseClient(Promise<Own<ClientHook>>&& p) { log(PROMCLIENT, nullptr); auto q = kj::mv(p); return w->own(A); }
Own<PipelineHook> newLocalPromisePipeline(Promise<Own<PipelineHook>>&& p) { log(PROMPIPE, nullptr); auto q = kj::mv(p); return w->pipe(); }
Maybe<Promise<Capability::Client>> Capability::Server::shortenPath() { return kj::none; }
Capability::Client Capability::Server::thisCap() { return Client(w->own(A)); }
static Capability::Server::DispatchCallResult dres() { return { w->vp(), false, true }; }
Capability::Server::DispatchCallResult Capability::Server::internalUnimplemented(const char*, uint64_t r) { log(UNIMPL1, this).iid = r; return dres(); }
Capability::Server::DispatchCallResult Capability::Server::internalUnimplemented(const char*, uint64_t t, uint16_t m) { Ev& e = log(UNIMPL2, this); e.iid = t; e.mid = m; return dres(); }
Promise<void> Capability::Server::internalUnimplemented(const char*, const char*, uint64_t t, uint16_t m) { Ev& e = log(UNIMPL3, this); e.iid = t; e.mid = m; return w->vp(); }
namespace _ {
PipelineBuilderPair newPipelineBuilder(unsigned int n) { log(NEWPB, nullptr).words = n; return { AnyPointer::Builder(mkPB(0)), w->pipe() }; }
Capability::Client CapabilityServerSetBase::addInternal(Own<Capability::Server>&& s, void* p) { Ev& e = log(ADDINT, s.get()); e.arg = p; auto q = kj::mv(s); return Capability::Client(w->own(A)); }
Promise<void*> CapabilityServerSetBase::getLocalServerInternal(Capability::Client& c) { log(LOCALSRV, c.hook.get()); return kj::_::PromiseNode::to<Promise<void*>>(kj::_::OwnPromiseNode(&w->pnode)); }
void* CapabilityServerSetBase::tryGetLocalServerSyncInternal(Capability::Client& c) { log(SYNCSRV, c.hook.get()); srvNull = nd(81); return srvNull ? nullptr : (void*)&w->sv; }
} }

typedef capnp::Capability::Client CC; typedef PI::Client PC;
static void begin() { en = 0; shared = nd(70); asked = reason = nullptr; for (int i = 0; i < NOBJ; i++) rev[i] = 0; gets = kills = 0; fails = srvNull = false; for (int i = 0; i < NOBJ; i++) gone[i] = 0; n = 0; first.op = NONE; }
#define W0 World W; w = &W; begin()
static int total() { int s = 0; for (int i = 0; i < NOBJ; i++) s += gone[i]; return s; }
static bool only(int id) { return gone[id] == 1 && total() == 1; }
static bool one(int c, const void* o) { return en == 1 && ev[0].call == c && ev[0].obj == o; }
static Maybe<capnp::MessageSize> hint(uint64_t words, unsigned caps) { if (nd(60)) return kj::none; return capnp::MessageSize{words, caps}; }
#define HINT uint64_t hw = nv(61); unsigned hc = nv(62); auto h = hint(hw, hc); bool hh = h != kj::none
#define HINTED (ev[0].has == hh && (!hh || (ev[0].words == hw && ev[0].caps == hc)))
namespace vp {
bool isNoneE(const kj::Exception& e) { return kj::MaybeTraits<kj::Exception>::isNone(e); }
size_t sizeofE() { return sizeof(kj::Exception); }
// ---- clients
void all__c_own() { W0; { CC c(W.own(A)); MUST(c.hook.get() == &W.a && en == 0 && total() == 0); } MUST(only(A) && en == 0); done(); }
void all__c_copy() { W0; { CC c(W.own(A)); { CC d(c); MUST(one(ADDREF, &W.a)); MUST(d.hook.get() == &W.b && c.hook.get() == &W.a && total() == 0); } MUST(only(B)); } MUST(gone[A] == 1 && gone[B] == 1 && total() == 2); done(); }
void all__c_move() { W0; { CC c(W.own(A)); CC d(kj::mv(c)); MUST(d.hook.get() == &W.a && c.hook.get() == nullptr && en == 0 && total() == 0); } MUST(only(A)); done(); }
void all__c_assign() { W0; { CC c(W.own(A)), d(W.own(O)); CC& r = (d = c); MUST(&r == &d && one(ADDREF, &W.a) && d.hook.get() == &W.b && c.hook.get() == &W.a && only(O)); } MUST(gone[A] == 1 && gone[B] == 1 && gone[O] == 1); done(); }
void all__c_assignself() { W0; { CC c(W.own(A)); CC& k = c; c = k; MUST(c.hook.get() == &W.a ? en == 0 && total() == 0 : one(ADDREF, &W.a) && c.hook.get() == &W.b && only(A)); } MUST(gone[A] == 1 && gone[B] == en && total() == 1 + en); done(); }
void all__c_moveassign() { W0; { CC c(W.own(A)), d(W.own(O)); d = kj::mv(c); MUST(d.hook.get() == &W.a && en == 0 && only(O)); } MUST(gone[A] == 1 && gone[O] == 1 && total() == 2); done(); }
void all__c_server() { W0; { CC c(W.srv()); MUST(en == 1 && ev[0].call == MAKELOCAL && ev[0].arg == (capnp::Capability::Server*)&W.sv && c.hook.get() == &W.a && gone[SV] == 1); } MUST(gone[A] == 1 && total() == 2); done(); }
void all__c_castas() { W0; { CC c(W.own(A)); { PC d = c.castAs<PI>(); MUST(one(ADDREF, &W.a) && d.hook.get() == &W.b && c.hook.get() == &W.a && total() == 0); } MUST(only(B)); } MUST(gone[A] == 1 && total() == 2); done(); }
void all__c_from() { W0; { CC c(W.own(A)); auto h = capnp::ClientHook::from(kj::mv(c)); MUST(h.get() == &W.a && en == 0 && total() == 0); } MUST(only(A)); done(); }
void all__c_inner() { W0; { CC c(W.own(A)); auto h = capnp::Orphanage::GetInnerReader<capnp::Capability>::apply(kj::mv(c)); MUST(h.get() == &W.a && en == 0 && total() == 0); } MUST(only(A)); done(); }
void all__c_promise() { W0; { CC c(kj::_::PromiseNode::to<Promise<CC>>(kj::_::OwnPromiseNode((GNode<CC>*)&W.node))); MUST(en == 1 && ev[0].call == PROMCLIENT && c.hook.get() == &W.a && kills == 1 && gets == 0); } MUST(only(A)); done(); }
void all__g_copy() { W0; { PC c(W.own(A)); { PC d(c); MUST(one(ADDREF, &W.a) && d.hook.get() == &W.b && c.hook.get() == &W.a && total() == 0); } MUST(only(B)); } MUST(gone[A] == 1 && total() == 2); done(); }
void all__g_assign() { W0; { PC c(W.own(A)), d(W.own(O)); PC& r = (d = c); MUST(&r == &d && one(ADDREF, &W.a) && d.hook.get() == &W.b && c.hook.get() == &W.a && only(O)); } MUST(gone[A] == 1 && gone[B] == 1 && gone[O] == 1); done(); }
void all__g_moveassign() { W0; { PC c(W.own(A)), d(W.own(O)); d = kj::mv(c); MUST(d.hook.get() == &W.a && en == 0 && only(O)); } MUST(gone[A] == 1 && gone[O] == 1 && total() == 2); done(); }
void all__c_brand() { W0; MUST(W.a.isBrand(CAP2) && !W.a.isBrand(CAP)); MUST(!W.a.isNull() && !W.a.isError()); MUST(W.rq.isBrand(CAP2) && !W.rq.isBrand(CAP));
  W.a.brand = &capnp::ClientHook::NULL_CAPABILITY_BRAND; MUST(W.a.isNull() && !W.a.isError()); W.a.brand = &capnp::ClientHook::BROKEN_CAPABILITY_BRAND; MUST(!W.a.isNull() && W.a.isError()); done(); }
// ---- starting calls: exactly the interface, method, size hint and call hints given, on exactly this hook
#define ARGS uint64_t id = nv(50); uint16_t m = (uint16_t)nv(51); HINT; CC::CallHints ch; ch.noPromisePipelining = nd(52); ch.onlyPromisePipeline = nd(53)
#define CALLED (one(NEWCALL, &W.a) && ev[0].iid == id && ev[0].mid == m && HINTED && ev[0].h1 == ch.noPromisePipelining && ev[0].h2 == ch.onlyPromisePipeline)
void all__n_typeless() { W0; ARGS; { CC c(W.own(A)); { auto r = c.typelessRequest(id, m, h, ch); MUST(CALLED); MUST(n == 0 && isPB(r.builder, 0) && r.hook.get() == &W.rq && total() == 0); } MUST(only(RQ)); } MUST(gone[A] == 1 && total() == 2); done(); }
void all__n_call() { W0; ARGS; { CC c(W.own(A)); { auto r = c.newCall<PP, RR>(id, m, h, ch); MUST(CALLED); MUST(on(GETSTRUCT) && sz<PP>() && isSB(r._builder, 1) && r.hook.get() == &W.rq && total() == 0); } MUST(only(RQ)); } MUST(gone[A] == 1 && total() == 2); done(); }
void all__n_stream() { W0; ARGS; { CC c(W.own(A)); { auto r = c.newStreamingCall<PP>(id, m, h, ch); MUST(CALLED); MUST(on(GETSTRUCT) && sz<PP>() && isSB(r._builder, 1) && r.hook.get() == &W.rq && total() == 0); } MUST(only(RQ)); } MUST(gone[A] == 1 && total() == 2); done(); }
void all__n_generated() { W0; HINT; { PC c(W.own(A)); { auto r = c.saveRequest(h); MUST(one(NEWCALL, &W.a) && ev[0].iid == 0xc8cb212fcd9f5691ull && ev[0].mid == 0 && HINTED && !ev[0].h1 && !ev[0].h2); MUST(on(GETSTRUCT) && sz<PP>() && isSB(r._builder, 1) && r.hook.get() == &W.rq); } MUST(only(RQ)); } done(); }
// ---- sending: once, and the request is used up
typedef capnp::Request<PP, RR> Rq; typedef capnp::StreamingRequest<PP> SRq;
void all__s_send() { W0; { Rq r(PP::Builder(mkSB(0)), W.req()); { auto p = r.send(); MUST(one(SEND, &W.rq) && r.hook.get() == nullptr && only(RQ) && gets == 0 && kills == 0); RR::Pipeline& q = p; MUST(q._typeless.hook.get() == &W.pl && q._typeless.ops.size() == 0); } MUST(kills == 1 && gone[PL] == 1 && gone[RQ] == 1 && total() == 2); } MUST(en == 1 && total() == 2); done(); }
void all__s_sendget() { W0; { Rq r(PP::Builder(mkSB(0)), W.req()); auto p = r.send(); Promise<capnp::Response<RR>>& q = p; { auto nd = kj::_::PromiseNode::from(kj::mv(q)); kj::_::ExceptionOr<capnp::Response<RR>> x; nd->get(x); MUST(gets == 1);
  MUST((x.exception != kj::none) == fails && (x.value == kj::none) == fails); KJ_IF_SOME(v, x.value) { MUST(onR(GETSTRUCT) && g.d == nullptr && isSR(v._reader, 1) && v.hook.get() == &W.rs && gone[RS] == 0); } } MUST(gone[RS] == (fails ? 0 : 1)); } MUST(en == 1 && kills == 1 && gone[PL] == 1 && gone[RQ] == 1); done(); }
void all__s_sendany() { W0; { capnp::Request<AP, AP> r(AP::Builder(mkPB(0)), W.req()); auto p = r.send(); Promise<capnp::Response<AP>>& q = p; MUST(((AP::Pipeline&)p).hook.get() == &W.pl); { auto nd = kj::_::PromiseNode::from(kj::mv(q)); kj::_::ExceptionOr<capnp::Response<AP>> x; nd->get(x); MUST(gets == 1);
  MUST((x.exception != kj::none) == fails && (x.value == kj::none) == fails); KJ_IF_SOME(v, x.value) { MUST(n == 0 && isPR(v.reader, 0) && v.hook.get() == &W.rs && gone[RS] == 0); } } MUST(gone[RS] == (fails ? 0 : 1)); } MUST(en == 1 && kills == 1 && gone[PL] == 1 && gone[RQ] == 1); done(); }
void all__s_ignore() { W0; { Rq r(PP::Builder(mkSB(0)), W.req()); { auto p = r.sendIgnoringResult(); MUST(one(SEND, &W.rq) && r.hook.get() == nullptr && gone[RQ] == 1 && gone[PL] == 1 && gets == 0 && kills == 0); auto nd = kj::_::PromiseNode::from(kj::mv(p)); kj::_::ExceptionOr<kj::_::Void> x; nd->get(x); MUST(gets == 1 && (x.exception != kj::none) == fails && (x.value == kj::none) == fails); } MUST(kills == 1 && gone[RS] == (fails ? 0 : 1)); } MUST(en == 1 && gone[RQ] == 1); done(); }
void all__s_pipe() { W0; { Rq r(PP::Builder(mkSB(0)), W.req()); { auto q = r.sendForPipeline(); MUST(one(SENDPIPE, &W.rq) && r.hook.get() == nullptr && only(RQ) && q._typeless.hook.get() == &W.pl && q._typeless.ops.size() == 0); } MUST(gone[PL] == 1 && total() == 2); } MUST(total() == 2); done(); }
void all__s_stream() { W0; { SRq r(PP::Builder(mkSB(0)), W.req()); { auto p = r.send(); MUST(one(SENDSTREAM, &W.rq) && r.hook.get() == nullptr && only(RQ) && kills == 0 && gets == 0); MUST(kj::_::PromiseNode::from(kj::mv(p)).get() == &W.vnode); } MUST(kills == 1); } MUST(only(RQ)); done(); }
void all__s_dropped() { W0; { Rq r(PP::Builder(mkSB(0)), W.req()); MUST(isSB(r._builder, 0)); } MUST(en == 0 && only(RQ)); done(); }
void all__s_from() { W0; { Rq r(PP::Builder(mkSB(0)), W.req()); auto h = capnp::RequestHook::from(kj::mv(r)); MUST(h.get() == &W.rq && r.hook.get() == nullptr && total() == 0); } MUST(en == 0 && only(RQ)); done(); }
void all__s_respfrom() { W0; { capnp::Response<RR> r(RR::Reader(mkSR(0)), W.resp()); MUST(isSR(r._reader, 0)); auto h = capnp::ResponseHook::from(kj::mv(r)); MUST(h.get() == &W.rs && r.hook.get() == nullptr && total() == 0); } MUST(en == 0 && only(RS)); done(); }
void all__s_null() { W0; { Rq r(nullptr); SRq s(nullptr); MUST(r.hook.get() == nullptr && s.hook.get() == nullptr); } MUST(en == 0 && total() == 0); done(); }
void all__s_drop() { W0; { capnp::RemotePromise<RR> p(kj::_::PromiseNode::to<Promise<capnp::Response<RR>>>(kj::_::OwnPromiseNode((GNode<capnp::Response<RR>>*)&W.node)), RR::Pipeline(AP::Pipeline(W.pipe()))); { auto q = p.dropPipeline(); MUST(kj::_::PromiseNode::from(kj::mv(q)).get() == (void*)&W.node); } MUST(kills == 1); } MUST(only(PL) && kills == 1 && en == 0); done(); }
void all__s_rpmove() { W0; { capnp::RemotePromise<RR> p(kj::_::PromiseNode::to<Promise<capnp::Response<RR>>>(kj::_::OwnPromiseNode((GNode<capnp::Response<RR>>*)&W.node)), RR::Pipeline(AP::Pipeline(W.pipe()))); auto q = kj::mv(p); RR::Pipeline& z = q; MUST(z._typeless.hook.get() == &W.pl && kills == 0 && total() == 0); } MUST(only(PL) && kills == 1 && en == 0); done(); }
// ---- the server's side of a call
typedef capnp::CallContext<PP, RR> Cx; typedef capnp::StreamingCallContext<PP> SCx; typedef capnp::CallContext<AP, AP> ACx;
void all__x_params() { W0; Cx c(W.cx); auto v = c.getParams(); MUST(one(PARAMS, &W.cx) && onR(GETSTRUCT) && g.d == nullptr && isSR(v._reader, 1)); done(); }
void all__x_paramsany() { W0; ACx c(W.cx); auto v = c.getParams(); MUST(one(PARAMS, &W.cx) && n == 0 && isPR(v.reader, 0)); done(); }
void all__x_sparams() { W0; SCx c(W.cx); auto v = c.getParams(); MUST(one(PARAMS, &W.cx) && onR(GETSTRUCT) && g.d == nullptr && isSR(v._reader, 1)); done(); }
void all__x_release() { W0; Cx c(W.cx); c.releaseParams(); MUST(one(RELEASE, &W.cx) && n == 0); done(); }
void all__x_srelease() { W0; SCx c(W.cx); c.releaseParams(); MUST(one(RELEASE, &W.cx) && n == 0); done(); }
void all__x_results() { W0; HINT; Cx c(W.cx); auto v = c.getResults(h); MUST(one(RESULTS, &W.cx) && HINTED && on(GETSTRUCT) && sz<RR>() && g.d == nullptr && isSB(v._builder, 1)); done(); }
void all__x_init() { W0; HINT; Cx c(W.cx); auto v = c.initResults(h); MUST(one(RESULTS, &W.cx) && HINTED && on(INITSTRUCT) && sz<RR>() && isSB(v._builder, 1)); done(); }
void all__x_initany() { W0; HINT; ACx c(W.cx); auto v = c.initResults(h); MUST(one(RESULTS, &W.cx) && HINTED && on(CLEAR) && isPB(v.builder, 0)); done(); }
void all__x_set() { W0; Cx c(W.cx); c.setResults(RR::Reader(mkSR(1))); MUST(one(RESULTS, &W.cx) && ev[0].has && ev[0].words == 41 && ev[0].caps == 42); MUST(n == 2 && g.op == SETSTRUCT && g.a == 1 && !g.f && g.seg == SEG && g.cap == CAP && g.ptr == PTR); done(); }
void all__x_adopt() { W0; { Cx c(W.cx); capnp::Orphan<RR> o(mkOB()); c.adoptResults(kj::mv(o)); MUST(one(RESULTS, &W.cx) && !ev[0].has && on(ADOPT) && g.a == 1 && o == nullptr); } MUST(n == 1); done(); }
void all__x_orphanage() { W0; HINT; Cx c(W.cx); auto o = c.getResultsOrphanage(h); MUST(one(RESULTS, &W.cx) && HINTED && (void*)o.arena == ARENA_ && (void*)o.capTable == CAP); done(); }
void all__x_pipe() { W0; { Cx c(W.cx); RR::Pipeline p(AP::Pipeline(W.pipe())); c.setPipeline(kj::mv(p)); MUST(en == 1 && ev[0].call == SETPIPE && ev[0].obj == &W.cx && ev[0].arg == &W.pl && gone[PL] == 1); } MUST(only(PL)); done(); }
void all__x_pipecopy() { W0; { Cx c(W.cx); RR::Pipeline p(AP::Pipeline(W.pipe())); c.setPipeline(p); MUST(en == 2 && ev[0].call == P_ADDREF && ev[0].obj == &W.pl && ev[1].call == SETPIPE && ev[1].obj == &W.cx && ev[1].arg == &W.pl2 && only(PL2) && p._typeless.hook.get() == &W.pl); } MUST(gone[PL] == 1 && total() == 2); done(); }
void all__x_tail() { W0; { Cx c(W.cx); Rq r(PP::Builder(mkSB(0)), W.req()); auto p = c.tailCall(kj::mv(r)); MUST(en == 1 && ev[0].call == TAIL && ev[0].obj == &W.cx && ev[0].arg == &W.rq && only(RQ) && r.hook.get() == nullptr); MUST(kj::_::PromiseNode::from(kj::mv(p)).get() == &W.vnode); } MUST(kills == 1 && only(RQ)); done(); }
void all__x_typed() { W0; ACx c(W.cx); auto t = W.sv.internalGetTypedContext<PP, RR>(c); auto s = W.sv.internalGetTypedStreamingContext<PP>(c); MUST(t.hook == &W.cx && s.hook == &W.cx && en == 0); MUST(&capnp::CallContextHook::from(t) == &W.cx && &capnp::CallContextHook::from(s) == &W.cx); done(); }
void all__x_dispatch() { W0; { uint64_t id = nv(50); uint16_t m = (uint16_t)nv(51); ACx c(W.cx); auto r = ((capnp::Capability::Server&)W.sv).dispatchCall(id, m, c); capnp::Capability::Server* me = &W.sv;
  if (id != 0xc8cb212fcd9f5691ull) { MUST(one(UNIMPL1, me) && ev[0].iid == id); MUST(r.allowCancellation); } else if (m != 0) { MUST(one(UNIMPL2, me) && ev[0].iid == id && ev[0].mid == m); MUST(r.allowCancellation); }
  else { MUST(en == 1 && ev[0].call == SAVE && ev[0].obj == &W.sv && ev[0].arg == &W.cx); MUST(!r.isStreaming && !r.allowCancellation); } MUST(kj::_::PromiseNode::from(kj::mv(r.promise)).get() == &W.vnode); } MUST(kills == 1 && total() == 0); done(); }
struct Plain final: PI::Server { };
void all__x_unimpl() { W0; { Plain s; ACx c(W.cx); auto r = ((capnp::Capability::Server&)s).dispatchCall(0xc8cb212fcd9f5691ull, 0, c); MUST(one(UNIMPL3, (capnp::Capability::Server*)&s) && ev[0].iid == 0xc8cb212fcd9f5691ull && ev[0].mid == 0); } MUST(kills == 1); done(); }
void all__x_this() { W0; { PC c = W.sv.thisCap(); MUST(one(ADDREF, &W.a) && c.hook.get() == &W.b); } MUST(gone[A] == 1 && gone[B] == 1 && total() == 2); done(); }
// ---- pipelines
void all__p_from() { W0; { RR::Pipeline p(AP::Pipeline(W.pipe())); auto h = capnp::PipelineHook::from(kj::mv(p)); MUST(h.get() == &W.pl && total() == 0); } MUST(only(PL) && en == 0); done(); }
void all__p_fromref() { W0; { RR::Pipeline p(AP::Pipeline(W.pipe())); MUST(&capnp::PipelineHook::from(p) == &W.pl); AP::Pipeline q(W.pipe(PL2)); MUST(&capnp::PipelineHook::from(q) == &W.pl2); } MUST(gone[PL] == 1 && gone[PL2] == 1 && en == 0); done(); }
void all__p_fromany() { W0; { AP::Pipeline p(W.pipe()); auto h = capnp::PipelineHook::from(kj::mv(p)); MUST(h.get() == &W.pl && total() == 0); } MUST(only(PL) && en == 0); done(); }
void all__p_release() { W0; { AP::Pipeline p(W.pipe()); auto h = p.releasePipelineHook(); MUST(h.get() == &W.pl && p.hook.get() == nullptr && total() == 0); } MUST(only(PL) && en == 0); done(); }
static void mkop(capnp::PipelineOp& o, int k) { o.type = nd(k) ? capnp::PipelineOp::NOOP : capnp::PipelineOp::GET_POINTER_FIELD; o.pointerIndex = (uint16_t)nv(k + 1); }
void all__p_opeq() { capnp::PipelineOp a, b; mkop(a, 30); mkop(b, 40); bool same = a.type == b.type && (a.type == capnp::PipelineOp::NOOP || a.pointerIndex == b.pointerIndex); MUST((a == b) == same); done(); }
void all__p_build() { W0; { unsigned k = (unsigned)nv(50); capnp::PipelineBuilder<RR> b(k); MUST(en == 1 && ev[0].call == NEWPB && ev[0].words == k); MUST(on(INITSTRUCT) && sz<RR>() && isSB(b._builder, 1)); { auto p = b.build(); MUST(p._typeless.hook.get() == &W.pl && p._typeless.ops.size() == 0 && total() == 0); MUST(b._builder.segment == nullptr && b._builder.data == nullptr && b._builder.pointers == nullptr); } MUST(only(PL)); } MUST(only(PL) && n == 1); done(); }
void all__p_builddrop() { W0; { capnp::PipelineBuilder<RR> b; MUST(ev[0].words == 64); } MUST(only(PL)); done(); }
// ---- revocable servers
typedef capnp::RevocableServer<PI> RV;
#define OUT (!shared || rev[A] >= 1)
void all__r_life() { W0; { RV r(W.sv); MUST(en == 1 && ev[0].call == MAKEREV && ev[0].arg == (capnp::Capability::Server*)&W.sv); MUST(total() == 0 && rev[A] == 0); } MUST(OUT && only(A)); done(); }
void all__r_client() { W0; { RV r(W.sv); { PC c = r.getClient(); MUST(en == 2 && ev[1].call == ADDREF && ev[1].obj == &W.a && c.hook.get() == &W.b); } MUST(only(B) && rev[A] == 0); } MUST(OUT && gone[A] == 1); done(); }
void all__r_use() { W0; { RV r(W.sv); bool b = r.isInUse(); MUST(asked == &W.a && b == shared && rev[A] == 0); } done(); }
void all__r_revoke() { W0; { RV r(W.sv); r.revoke(); MUST(rev[A] == 1 && total() == 0); } MUST(only(A)); done(); }
void all__r_revokex() { W0; { RV r(W.sv); kj::Exception x = depExc(1); r.revoke(kj::mv(x)); MUST(rev[A] == 1 && reason != nullptr && total() == 0); } MUST(only(A)); done(); }
void all__r_move() { W0; { RV r(W.sv); { RV s(kj::mv(r)); MUST(s.hook.get() == &W.a && r.hook.get() == nullptr && total() == 0 && rev[A] == 0); } MUST(OUT && only(A)); rev[A] = 0; } MUST(rev[A] == 0 && only(A)); done(); }
void all__r_assign() { W0; { RV r(W.sv), s(W.sv); r.hook = W.own(O); MUST(only(A)); gone[A] = 0; r = kj::mv(s); MUST((!shared || rev[O] >= 1) && rev[A] == 0 && only(O) && r.hook.get() == &W.a); } MUST(OUT && gone[A] == 1 && total() == 2); done(); }
void all__r_assignnull() { W0; { RV r(W.sv), s(W.sv); MUST(total() == 0); s.hook = nullptr; gone[A] = 0; r.hook = W.own(O); gone[A] = 0; r = kj::mv(s); MUST((!shared || rev[O] >= 1) && r.hook.get() == nullptr); } MUST(gone[O] == 1); done(); }
// ---- recognising local servers
struct SetOf: capnp::CapabilityServerSet<PI> { };
void all__l_add() { W0; { capnp::CapabilityServerSet<PI> s; { Own<PI::Server> own = W.srv(); PC c = s.add(kj::mv(own)); MUST(en == 2 && ev[0].call == ADDINT && ev[0].obj == (capnp::Capability::Server*)&W.sv && ev[0].arg == (PI::Server*)&W.sv && ev[1].call == ADDREF && c.hook.get() == &W.b && gone[SV] == 1); } } MUST(gone[A] == 1 && gone[B] == 1); done(); }
void all__l_sync() { W0; { capnp::CapabilityServerSet<PI> s; PC c(W.own(A)); auto r = s.tryGetLocalServerSync(c); MUST(one(SYNCSRV, &W.a) && (r == kj::none) == srvNull); KJ_IF_SOME(x, r) MUST((void*)&x == (void*)&W.sv); } done(); }
void all__l_async() { W0; { capnp::CapabilityServerSet<PI> s; PC c(W.own(A)); auto p = s.getLocalServer(c); MUST(one(LOCALSRV, &W.a) && gets == 0); { auto nd = kj::_::PromiseNode::from(kj::mv(p)); kj::_::ExceptionOr<Maybe<PI::Server&>> x; nd->get(x); MUST(gets == 1 && (x.exception != kj::none) == fails && (x.value == kj::none) == fails);
  KJ_IF_SOME(v, x.value) { MUST((v == kj::none) == srvNull); KJ_IF_SOME(z, v) MUST((void*)&z == (void*)&W.sv); } } } MUST(kills == 1 && gone[A] == 1); done(); }
}
