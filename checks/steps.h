// Steps of a session over several objects: creating one or running an operation.
#ifndef STEPS_H_
#define STEPS_H_
#include "checks/vole.h"

// One step of a session: creating an object or running an operation.
enum Kind { ROT, SPFSS, MPFSS, GILBOA, VOLE, KINDS };
static const char* const kKind[] = {"rot", "spfss", "mpfss", "product", "vole"};
template <typename T> struct Store {
  std::unique_ptr<AllButOneRandomOT> rot;
  std::unique_ptr<SPFSSKnownIndex> spfss;
  std::unique_ptr<MPFSSKnownIndices> mpfss;
  std::unique_ptr<ScalarVectorGilboaProduct> gilboa;
  std::unique_ptr<DistributedVectorOLE<T>> vole;
};
struct Step1 {
  Kind kind = ROT;
  bool create = false;
  RotOp rot;
  SpfssOp spfss;
  MpfssOp mpfss;
  GilboaOp gilboa;
  VOp vole;
  std::string name;
  int dir() const { return kind == ROT ? rot.dir : kind == SPFSS ? spfss.dir : kind == MPFSS ? mpfss.dir : kind == GILBOA ? gilboa.dir : vole.dir; }
};
template <typename T> struct Outs {
  typename Rot<T>::Out rot;
  typename Spfss<T>::Out spfss;
  typename Mpfss<T>::Out mpfss;
  typename Gilboa<T>::Out gilboa;
  Step<T> vole;
};
inline Step1 mk_create(Kind k) { Step1 s; s.kind = k; s.create = true; s.name = strf("new %s", kKind[k]); return s; }
inline std::string dirs(int d) { return d ? "'" : ""; }
inline Step1 st(RotOp o) { Step1 s; s.kind = ROT; s.rot = o; s.name = "rot" + show(o.len) + show(o.idx) + dirs(o.dir); return s; }
inline Step1 st(SpfssOp o) { Step1 s; s.kind = SPFSS; s.spfss = o; s.name = "spfss" + show(o.len) + show(o.idx) + dirs(o.dir); return s; }
inline Step1 st(MpfssOp o) { Step1 s; s.kind = MPFSS; s.mpfss = o; s.name = strf("mpfss%ld", (long)o.len) + show(o.idx) + strf(":%d%d", o.prep[0], o.prep[1]) + dirs(o.dir); return s; }
inline Step1 st(GilboaOp o) { Step1 s; s.kind = GILBOA; s.gilboa = o; s.name = strf("product%zu", o.y.size()) + dirs(o.dir); return s; }
inline Step1 st(VOp o) { Step1 s; s.kind = VOLE; s.vole = o; s.name = show(std::vector<VOp>{o}); return s; }
inline std::string show(const std::vector<Step1>& v) {
  std::string s;
  for (auto& x : v) s += (s.empty() ? "" : " ") + x.name;
  return s;
}
template <typename T> inline void run_step(Store<T>& o, const Step1& s, const Mod& m, int role, mpc_utils::comm_channel& ch, Outs<T>& out) {
  switch (s.kind) {
    case ROT: if (s.create) o.rot = create<AllButOneRandomOT>(ch); else Rot<T>::run(*o.rot, s.rot, m, role, out.rot); break;
    case SPFSS: if (s.create) o.spfss = create<SPFSSKnownIndex>(ch); else Spfss<T>::run(*o.spfss, s.spfss, m, role, out.spfss); break;
    case MPFSS: if (s.create) o.mpfss = create<MPFSSKnownIndices>(ch); else Mpfss<T>::run(*o.mpfss, s.mpfss, m, role, out.mpfss); break;
    case GILBOA: if (s.create) o.gilboa = create<ScalarVectorGilboaProduct>(ch); else Gilboa<T>::run(*o.gilboa, s.gilboa, m, role, out.gilboa); break;
    default: if (s.create) o.vole = create<DistributedVectorOLE<T>>(ch); else vole_op<T>(*o.vole, s.vole, m, role, out.vole);
  }
}
template <typename T> inline void check_step(const Step1& s, const Mod& m, const Outs<T> out[2]) {
  if (s.create) return;
  switch (s.kind) {
    case ROT: { Vecs<T> o[2] = {out[0].rot, out[1].rot}; Rot<T>::check(s.rot, m, o); break; }
    case SPFSS: { Vecs<T> o[2] = {out[0].spfss, out[1].spfss}; Spfss<T>::check(s.spfss, m, o); break; }
    case MPFSS: { std::vector<T> o[2] = {out[0].mpfss, out[1].mpfss}; Mpfss<T>::check(s.mpfss, m, o); break; }
    case GILBOA: { std::vector<T> o[2] = {out[0].gilboa, out[1].gilboa}; Gilboa<T>::check(s.gilboa, m, o); break; }
    default:
      if (s.vole.pre) return;
      MC_CHECK(out[0].vole.u.size() == s.vole.n && out[0].vole.v.size() == s.vole.n && out[1].vole.w.size() == s.vole.n, "vector OLE: wrong length");
      for (int64_t j = 0; j < s.vole.n; j++)
        if (val(add(mul((T)out[0].vole.u[j], (T)out[1].vole.delta), (T)out[0].vole.v[j])) != val((T)out[1].vole.w[j])) mc::violation("vector OLE: position %ld does not satisfy w = u*delta + v", (long)j);
  }
}
inline std::vector<Step1> with_creation(std::vector<Step1> v) {
  std::vector<Step1> r;
  bool have[KINDS] = {};
  for (auto& s : v) {
    if (!have[s.kind] && !s.create) r.push_back(mk_create(s.kind));
    have[s.kind] = true;
    r.push_back(s);
  }
  return r;
}
inline RotOp rop(std::vector<int64_t> len, std::vector<int64_t> idx, int dir = 0) { RotOp o; o.len = len; o.idx = idx; o.dir = dir; return o; }
inline SpfssOp sop(std::vector<int64_t> len, std::vector<int64_t> idx, int dir = 0) { SpfssOp o; o.len = len; o.idx = idx; o.dir = dir; o.k = 3; return o; }
inline MpfssOp mop(int64_t len, std::vector<int64_t> idx, int dir = 0, int p0 = 0, int p1 = 0) { MpfssOp o; o.len = len; o.idx = idx; o.dir = dir; o.k = 2; o.prep[0] = p0; o.prep[1] = p1; return o; }
inline GilboaOp gop(size_t n, int dir = 0) { GilboaOp o; for (size_t i = 0; i < n; i++) o.y.push_back(i % 2); o.x = 1; o.dir = dir; return o; }
inline VOp P(int64_t n, int dir = 0) { VOp o; o.pre = true; o.n = n; o.dir = dir; return o; }
inline VOp R(int64_t n, int dir = 0) { VOp o; o.n = n; o.dir = dir; return o; }
#endif
