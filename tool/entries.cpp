// Entry points of the analysis: each wraps one public operation of the library.
#include <new>
#include <type_traits>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "trace.h"
#include "trace-db.h"
#include "TraceDB.hpp"
#define E extern "C" __attribute__((used))
using boost::archive::text_iarchive; using boost::archive::text_oarchive;
typedef std::istream IS; typedef std::ostream OS;

#define COMMON(T) \
 E void e_##T##_default(void *p) { new (p) T(); } \
 E void e_##T##_copy(void *p, const T &o) { new (p) T(o); } \
 E bool e_##T##_eq(const T &a, const T &b) { return a == b; } \
 E std::size_t e_##T##_hash(const T &a) { return hash_value(a); } \
 E std::size_t e_##T##_stdhash(const T &a) { return std::hash<T>()(a); } \
 E void e_##T##_dtor(T *p) { p->~T(); }
#define SER(T) \
 E void e_##T##_save(text_oarchive &ar, T &o) { boost::serialization::access::serialize(ar, o, 0); } \
 E void e_##T##_load(text_iarchive &ar, T &o) { boost::serialization::access::serialize(ar, o, 0); }

COMMON(TypeDescription) SER(TypeDescription)
COMMON(TraceBufferSize) SER(TraceBufferSize)
COMMON(TraceVarInfo) SER(TraceVarInfo)
COMMON(TracePointData) SER(TracePointData)
COMMON(TracePoint) SER(TracePoint)
COMMON(Trace) SER(Trace)
COMMON(TraceDB) SER(TraceDB)
COMMON(Predicate)
COMMON(FreeVariable)

// ---- readers and writers
E void e_TypeDescription_read(void *p, IS &is) { new (p) TypeDescription(is); }
E void e_TypeDescription_readn(void *p, IS &is, const Names &n) { new (p) TypeDescription(is, n); }
E void e_TraceBufferSize_read(void *p, IS &is) { new (p) TraceBufferSize(is); }
E void e_TraceVarInfo_read3(void *p, IS &is, const Names &n, const TypeDescriptions &t) { new (p) TraceVarInfo(is, n, t); }
E void e_TraceVarInfo_read(void *p, IS &is, const Names &n, const TypeDescriptions &t, const MemoryMap &m) { new (p) TraceVarInfo(is, n, t, m); }
E void e_TracePoint_read3(void *p, IS &is, const Names &n, const TypeDescriptions &t) { new (p) TracePoint(is, n, t); }
E void e_TracePoint_read4(void *p, IS &is, const Names &n, const TypeDescriptions &t, MemoryMap &m) { new (p) TracePoint(is, n, t, m); }
E void e_TracePoint_read(void *p, IS &is, uint64_t c, const Names &n, const TypeDescriptions &t, MemoryMap &m) { new (p) TracePoint(is, c, n, t, m); }
E void e_Trace_read(void *p, IS &is, uint64_t max) { new (p) Trace(is, max); }
E void e_TypeDescription_write(OS &os, const TypeDescription &o) { os << o; }
E void e_TraceBufferSize_write(OS &os, const TraceBufferSize &o) { os << o; }
E void e_TraceVarInfo_write(OS &os, const TraceVarInfo &o) { os << o; }
E void e_TracePoint_write(OS &os, const TracePoint &o) { os << o; }
E void e_Trace_write(OS &os, const Trace &o) { os << o; }

// ---- constructors from parts
E void e_TypeDescription_make(void *p, uint32_t n, type_format f, uint32_t s) { new (p) TypeDescription(n, f, s); }
E void e_TraceBufferSize_make(void *p, uint64_t a, uint64_t s) { new (p) TraceBufferSize(a, s); }
E void e_TraceVarInfo_make(void *p, VarValue *v, uint32_t n, uint32_t t, type_format f, uint32_t s, uint64_t b, uint8_t h) { new (p) TraceVarInfo(*v, n, t, f, s, b, h); }
E void e_TracePointData_make(void *p, const TraceBufferSizes &s, const FlyweightTraceVarInfos &v, const Aux &a) { new (p) TracePointData(s, v, a); }
E void e_TracePoint_make(void *p, uint64_t c, uint64_t st, const TraceBufferSizes &s, const FlyweightTraceVarInfos &v, const Aux &a) { new (p) TracePoint(c, st, s, v, a); }
E void e_TracePoint_maked(void *p, uint64_t c, uint64_t st, const TracePointData &d) { new (p) TracePoint(c, st, d); }
E void e_Trace_make(void *p, const Names &n, const TypeDescriptions &t, const TracePoints &q) { new (p) Trace(n, t, q); }
E void e_TraceDB_make(void *p, const std::vector<Trace> &t) { new (p) TraceDB(t); }
E void e_Predicate_make(void *p, predicate_kind k, predicate_data *d, const Predicates &c) { new (p) Predicate(k, *d, c); }
E void e_FreeVariable_make(void *p, const std::vector<uint32_t> &t) { new (p) FreeVariable(t); }

// ---- accessors (these locate the fields)
#define GET(T, m) E decltype(((const T *)0)->m()) g_##T##_##m(const T &o) { return o.m(); }
GET(TypeDescription, getNameIndex) GET(TypeDescription, getTypeFormat) GET(TypeDescription, getSize)
GET(TraceBufferSize, getAddress) GET(TraceBufferSize, getSize)
GET(TraceVarInfo, getNameIndex) GET(TraceVarInfo, getTypeIndex) GET(TraceVarInfo, getTypeFormat)
GET(TraceVarInfo, getSize) GET(TraceVarInfo, getBufferSize) GET(TraceVarInfo, hasBufferSize)
E uint64_t g_TraceVarInfo_getValue(const TraceVarInfo &o) { return o.getValue().u; }
GET(TracePointData, getBufferSizes) GET(TracePointData, getVars) GET(TracePointData, getAux)
GET(TracePoint, getCounter) GET(TracePoint, getStatement) 
GET(TracePoint, getBufferSizes) GET(TracePoint, getVars) GET(TracePoint, getAux)
E const TracePointData &g_TracePoint_getData(const TracePoint &o) { return o.getData().get(); }
E const TracePoints &g_Trace_getPoints(const Trace &o) { return o.getPoints(); }
GET(Trace, getNames) GET(Trace, getTypes)
GET(TraceDB, getTraces)
GET(Predicate, getKind) GET(Predicate, getChildren) GET(Predicate, getHash)
E uint64_t g_Predicate_getData(const Predicate &o) { return o.getData().unsigned_value; }
GET(FreeVariable, getAllowedTypes) GET(FreeVariable, getHash)
E const Predicate &g_EvaluatePredicate_getPredicate(const EvaluatePredicate &o) { return o.getPredicate(); }
E const FlyweightTraceVarInfos &g_EvaluatePredicate_getVariables(const EvaluatePredicate &o) { return o.getVariables(); }
GET(EvaluatePredicate, getHash)

// ---- queries
E void e_Trace_query(TracePoints *out, const Trace &t, const FreeVariables &v, const Predicate &h, const Predicates &s, uint32_t seed, uint64_t mask, uint64_t st) { new (out) TracePoints(t.query(v, h, s, seed, mask, st)); }
E const TracePoints &e_Trace_getPoints2(const Trace &t, uint64_t mask, uint64_t st) { return t.getPoints(mask, st); }
E void e_TraceDB_query(TracePoints *out, const TraceDB &t, uint32_t i, const FreeVariables &v, const Predicate &h, const Predicates &s, uint32_t seed, uint64_t mask, uint64_t st) { new (out) TracePoints(t.query(i, v, h, s, seed, mask, st)); }
E void e_TraceDB_addTrace(TraceDB &db, const Trace &t) { db.addTrace(t); }
E bool e_TracePoint_satisfies(const TracePoint &p, const Predicate &q, const std::vector<uint32_t> &b) { return p.satisfiesPredicate(q, b); }
E bool e_TracePointData_satisfies(const TracePointData &p, const Predicate &q, const std::vector<uint32_t> &b) { return p.satisfiesPredicate(q, b); }
E void e_EvaluatePredicate_make(void *p, const Predicate &q, const FlyweightTraceVarInfos &v) { new (p) EvaluatePredicate(q, v); }
E void e_EvaluatePredicate_copy(void *p, const EvaluatePredicate &o) { new (p) EvaluatePredicate(o); }
E bool e_EvaluatePredicate_eq(const EvaluatePredicate &a, const EvaluatePredicate &b) { return a == b; }
E std::size_t e_EvaluatePredicate_hash(const EvaluatePredicate &a) { return hash_value(a); }
E std::size_t e_EvaluatePredicate_stdhash(const EvaluatePredicate &a) { return std::hash<EvaluatePredicate>()(a); }
E bool e_EvaluatePredicate_eval(const EvaluatePredicate &a) { return a(); }
E void e_Predicate_print(OS &os, const Predicate &p) { os << p; }

// ---- predicate values
typedef PredicateValue PV; typedef boost::multiprecision::cpp_int I; typedef boost::multiprecision::cpp_dec_float_50 F;
E void e_PV_default(void *p) { new (p) PV(); }
E void e_PV_copy(void *p, const PV &o) { new (p) PV(o); }
E void e_PV_int(void *p, const I &o) { new (p) PV(o); }
E void e_PV_float(void *p, const F &o) { new (p) PV(o); }
E void e_PV_u64(void *p, uint64_t o) { new (p) PV(o); }
E void e_PV_s64(void *p, int64_t o) { new (p) PV(o); }
E void e_PV_dbl(void *p, double o) { new (p) PV(o); }
E void e_PV_flt(void *p, float o) { new (p) PV(o); }
E void e_PV_dtor(PV *p) { p->~PV(); }
E void e_PV_move(void *p, PV &o) { new (p) PV(std::move(o)); }
template<class T> void assign_if(T &a, const T &b, std::true_type) { a = b; }
template<class T> void assign_if(T &a, const T &b, std::false_type) { }
template<class T> void massign_if(T &a, T &b, std::true_type) { a = std::move(b); }
template<class T> void massign_if(T &a, T &b, std::false_type) { }
E void e_PV_assign(PV &a, const PV &b) { assign_if(a, b, std::is_assignable<PV &, const PV &>()); }
E void e_PV_massign(PV &a, PV &b) { massign_if(a, b, std::is_assignable<PV &, PV &&>()); }
E bool k_PV_assignable() { return std::is_assignable<PV &, const PV &>::value; }
E bool k_PV_massignable() { return std::is_assignable<PV &, PV &&>::value; }
E bool e_PV_lt(const PV &a, const PV &b) { return a < b; }
E bool e_PV_le(const PV &a, const PV &b) { return a <= b; }
E bool e_PV_gt(const PV &a, const PV &b) { return a > b; }
E bool e_PV_ge(const PV &a, const PV &b) { return a >= b; }
E bool e_PV_eq(const PV &a, const PV &b) { return a == b; }
E void e_PV_add(void *p, const PV &a, const PV &b) { new (p) PV(a + b); }
E void e_PV_sub(void *p, const PV &a, const PV &b) { new (p) PV(a - b); }
E void e_PV_mul(void *p, const PV &a, const PV &b) { new (p) PV(a * b); }
E void e_PV_div(void *p, const PV &a, const PV &b) { new (p) PV(a / b); }

// ---- memory map
E void e_MemoryMap_ctor(void *p) { new (p) MemoryMap(); }
E void e_MemoryMap_dtor(MemoryMap *p) { p->MemoryMap::~MemoryMap(); }
E void e_MemoryMap_clear(MemoryMap &p) { p.clear(); }
E void e_MemoryMap_update(MemoryMap &m, const TraceBufferSize &b) { m.updateMemoryMap(b); }
E uint64_t e_MemoryMap_size(const MemoryMap &m, uint64_t a) { return m.computeBufferSize(a); }
E void *e_open(const char *f, uint64_t t) { return openWithTimeout(f, t); }
E uint64_t k_sizeof_TracePoint() { return sizeof(TracePoint); }
E uint64_t k_sizeof_TraceVarInfo() { return sizeof(TraceVarInfo); }
E uint64_t k_sizeof_TypeDescription() { return sizeof(TypeDescription); }
E uint64_t k_sizeof_TraceBufferSize() { return sizeof(TraceBufferSize); }
E uint64_t k_sizeof_Predicate() { return sizeof(Predicate); }
E uint64_t k_sizeof_PV() { return sizeof(PV); }

// ---- assignability
#define ASG(T) \
 E bool k_##T##_assignable() { return std::is_assignable<T &, const T &>::value || std::is_assignable<T &, T &&>::value; }
ASG(TypeDescription) ASG(TraceBufferSize) ASG(TraceVarInfo) ASG(TracePointData) ASG(TracePoint) ASG(Trace) ASG(TraceDB) ASG(Predicate) ASG(FreeVariable)

// ---- sequences of operations: what an operation remembers must not show in a later one
E void s_points(TracePoints *o1, TracePoints *o2, const Trace &t, uint64_t m1, uint64_t s1, uint64_t m2, uint64_t s2) { new (o1) TracePoints(t.getPoints(m1, s1)); new (o2) TracePoints(t.getPoints(m2, s2)); }
E void s_points_two(TracePoints *o1, TracePoints *o2, const Trace &t, const Trace &u, uint64_t m, uint64_t s) { new (o1) TracePoints(t.getPoints(m, s)); new (o2) TracePoints(u.getPoints(m, s)); }
E void s_points_copy(TracePoints *o1, TracePoints *o2, void *c, const Trace &t, uint64_t m1, uint64_t s1, uint64_t m2, uint64_t s2) { new (o1) TracePoints(t.getPoints(m1, s1)); Trace *u = new (c) Trace(t); new (o2) TracePoints(u->getPoints(m2, s2)); }
E void s_points_load(TracePoints *o1, TracePoints *o2, Trace &t, text_iarchive &ar, uint64_t m, uint64_t s) { new (o1) TracePoints(t.getPoints(m, s)); boost::serialization::access::serialize(ar, t, 0); new (o2) TracePoints(t.getPoints(m, s)); }
E void s_satisfies(bool *r1, bool *r2, const TracePointData &d, const TracePointData &f, const Predicate &p, const Predicate &q, const std::vector<uint32_t> &b, const std::vector<uint32_t> &c) { *r1 = d.satisfiesPredicate(p, b); *r2 = f.satisfiesPredicate(q, c); }
extern "C" void __model_gone(const void *);
E void s_satisfies_gone(bool *r1, bool *r2, const TracePointData &d, const TracePointData &f, const Predicate &p, const Predicate &q, const std::vector<uint32_t> &b, const std::vector<uint32_t> &c) { *r1 = d.satisfiesPredicate(p, b); __model_gone(&p); __model_gone(&b); __model_gone(&d); *r2 = f.satisfiesPredicate(q, c); }
E void s_satisfies_again(bool *r1, bool *r2, const TracePointData &d, const TracePointData &f, const Predicate &p, const Predicate &q, const std::vector<uint32_t> &b, const std::vector<uint32_t> &c) { d.satisfiesPredicate(p, b); *r2 = f.satisfiesPredicate(q, c); *r1 = d.satisfiesPredicate(p, b); }
E void s_points_again(TracePoints *o1, TracePoints *o2, const Trace &t, uint64_t m1, uint64_t s1, uint64_t m2, uint64_t s2) { t.getPoints(m1, s1); new (o2) TracePoints(t.getPoints(m2, s2)); new (o1) TracePoints(t.getPoints(m1, s1)); }
E void s_satisfies_point(bool *r1, bool *r2, const TracePoint &d, const TracePoint &f, const Predicate &p, const Predicate &q, const std::vector<uint32_t> &b, const std::vector<uint32_t> &c) { *r1 = d.satisfiesPredicate(p, b); *r2 = f.satisfiesPredicate(q, c); }
typedef TraceBufferSize TBS;
E void s_map_two(uint64_t *o, const TBS &a, const TBS &b, uint64_t p) { MemoryMap m; m.updateMemoryMap(a); m.updateMemoryMap(b); *o = m.computeBufferSize(p); }
E void s_map_three(uint64_t *o, const TBS &a, const TBS &b, const TBS &c, uint64_t p) { MemoryMap m; m.updateMemoryMap(a); m.updateMemoryMap(b); m.updateMemoryMap(c); *o = m.computeBufferSize(p); }
E void s_map_four(uint64_t *o, const TBS &a, const TBS &b, const TBS &c, const TBS &d, uint64_t p) { MemoryMap m; m.updateMemoryMap(a); m.updateMemoryMap(b); m.updateMemoryMap(c); m.updateMemoryMap(d); *o = m.computeBufferSize(p); }
E void s_map_clear(uint64_t *o, const TBS &a, const TBS &b, uint64_t p) { MemoryMap m; m.updateMemoryMap(a); m.clear(); m.updateMemoryMap(b); *o = m.computeBufferSize(p); }
E void s_map_points(void *p, void *q, IS &is, const Names &n, const TypeDescriptions &t) { MemoryMap m; new (p) TracePoint(is, 0, n, t, m); new (q) TracePoint(is, 1, n, t, m); }
