// Model of the iostream entry points the code uses: a string stream is a byte buffer, other streams swallow output.
#include <string>
#include <cstdint>
#include <cstring>
#include <cstdlib>
extern "C" { uint32_t sym_is_symbolic(uint64_t); int model_exact_numbers = 0; }
namespace {
struct SB { char* lo; char* hi; std::string s; size_t rpos; bool boolalpha; bool eof, fail; SB* next; };
SB* head = nullptr;
long fakeVt[8] = {0, 0, 0, 0, 0, 0, 0, 0};
SB* find(const void* p) { for (SB* b = head; b; b = b->next) if ((char*)p >= b->lo && (char*)p < b->hi) return b; return nullptr; }
SB* reg(void* self, size_t size) { for (SB* b = head; b; b = b->next) if (b->lo == self) { b->s.clear(); b->rpos = 0; b->hi = (char*)self + size; b->boolalpha = b->eof = b->fail = false; return b; } SB* b = new SB(); b->lo = (char*)self; b->hi = (char*)self + size; b->rpos = 0; b->boolalpha = b->eof = b->fail = false; b->next = head; head = b; return b; }
void unreg(void* self) { SB** p = &head; while (*p) { if ((*p)->lo == self) { SB* d = *p; *p = d->next; delete d; return; } p = &(*p)->next; } }
void put(void* o, const char* p, size_t n) { if (SB* b = find(o)) b->s.append(p, n); }
void putU(void* o, uint64_t v) { SB* b = find(o); if (!b) return; if (!model_exact_numbers && sym_is_symbolic(v)) { b->s.push_back('#'); return; } char t[24]; int k = 24; do { uint64_t q = v / 10; t[--k] = (char)('0' + (v - q * 10)); v = q; } while (v); b->s.append(t + k, 24 - k); }
void putS(void* o, int64_t v) { if (!find(o)) return; if (v < 0) { put(o, "-", 1); putU(o, 0 - (uint64_t)v); } else putU(o, (uint64_t)v); }
const size_t OSS = 376, SS = 392, ISS = 384;
// vptrs such that virtual-base casts (to basic_ios) land on a zeroed area of the object
long vtO[6] = {112, 0, 0, 0, 0, 0}; long vtI[8] = {128, 0, 0, 0, 0, 0, 0, 0}; long vtIO2[6] = {112, 0, 0, 0, 0, 0}; long vtIs[8] = {120, 0, 0, 0, 0, 0, 0, 0};
}
#define M(sym) __asm__(sym)
extern "C" {
// ---- ostringstream / stringstream / istringstream
void oss_c1(void* s) M("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void oss_c1(void* s) { memset(s, 0, OSS); *(void**)s = &vtO[3]; reg(s, OSS); }
void oss_c2(void* s, int) M("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1ESt13_Ios_Openmode"); void oss_c2(void* s, int) { oss_c1(s); }
void oss_d1(void* s) M("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev"); void oss_d1(void* s) { unreg(s); }
void ss_c1(void* s) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void ss_c1(void* s) { memset(s, 0, SS); *(void**)s = &vtI[3]; ((void**)s)[2] = &vtIO2[3]; reg(s, SS); }
void ss_c2(void* s, const std::string& x, int) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"); void ss_c2(void* s, const std::string& x, int) { ss_c1(s); find(s)->s = x; }
void ss_d1(void* s) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev"); void ss_d1(void* s) { unreg(s); }
void iss_c2(void* s, const std::string& x, int) M("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"); void iss_c2(void* s, const std::string& x, int) { memset(s, 0, ISS); *(void**)s = &vtIs[3]; reg(s, ISS)->s = x; }
void iss_d1(void* s) M("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev"); void iss_d1(void* s) { unreg(s); }
// ---- output
void* o_i(void* o, int v) M("_ZNSolsEi"); void* o_i(void* o, int v) { putS(o, v); return o; }
void* o_j(void* o, unsigned v) M("_ZNSolsEj"); void* o_j(void* o, unsigned v) { putU(o, v); return o; }
void* o_l(void* o, long v) M("_ZNSolsEl"); void* o_l(void* o, long v) { putS(o, v); return o; }
void* o_m(void* o, unsigned long v) M("_ZNSolsEm"); void* o_m(void* o, unsigned long v) { putU(o, v); return o; }
void* o_x(void* o, long long v) M("_ZNSolsEx"); void* o_x(void* o, long long v) { putS(o, v); return o; }
void* o_y(void* o, unsigned long long v) M("_ZNSolsEy"); void* o_y(void* o, unsigned long long v) { putU(o, v); return o; }
void* o_s(void* o, short v) M("_ZNSolsEs"); void* o_s(void* o, short v) { putS(o, v); return o; }
void* o_t(void* o, unsigned short v) M("_ZNSolsEt"); void* o_t(void* o, unsigned short v) { putU(o, v); return o; }
void* o_b(void* o, bool v) M("_ZNSolsEb"); void* o_b(void* o, bool v) { SB* b = find(o); if (b && b->boolalpha) { if (v) put(o, "true", 4); else put(o, "false", 5); } else putU(o, v); return o; }
void* o_d(void* o, double v) M("_ZNSolsEd"); void* o_d(void* o, double v) { if (find(o)) { if (v < 0) { put(o, "-", 1); v = -v; } putU(o, (uint64_t)v); } return o; }
void* o_f(void* o, float v) M("_ZNSolsEf"); void* o_f(void* o, float v) { return o_d(o, v); }
void* o_p(void* o, const void* v) M("_ZNSolsEPKv"); void* o_p(void* o, const void* v) { put(o, "0x0", 3); return o; }
void* o_fn(void* o, void* (*f)(void*)) M("_ZNSolsEPFRSoS_E"); void* o_fn(void* o, void* (*f)(void*)) { return f(o); }
void* o_fn2(void* o, void* (*f)(void*)) M("_ZNSolsEPFRSt8ios_baseS0_E"); void* o_fn2(void* o, void* (*f)(void*)) { if (SB* b = find(o)) b->boolalpha = true; return o; }
void* o_endl(void* o) M("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); void* o_endl(void* o) { put(o, "\n", 1); return o; }
void* o_ends(void* o) M("_ZSt4endsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); void* o_ends(void* o) { put(o, "\0", 1); return o; }
void* o_flush(void* o) M("_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"); void* o_flush(void* o) { return o; }
void* o_flush2(void* o) M("_ZNSo5flushEv"); void* o_flush2(void* o) { return o; }
void* o_cs(void* o, const char* s) M("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); void* o_cs(void* o, const char* s) { if (SB* b = find(o)) b->s.append(s); return o; }
void* o_c(void* o, char c) M("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"); void* o_c(void* o, char c) { if (SB* b = find(o)) b->s.push_back(c); return o; }
void* o_str(void* o, const std::string& s) M("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"); void* o_str(void* o, const std::string& s) { put(o, s.data(), s.size()); return o; }
void* o_ins(void* o, const char* s, long n) M("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); void* o_ins(void* o, const char* s, long n) { put(o, s, n); return o; }
void* o_write(void* o, const char* s, long n) M("_ZNSo5writeEPKcl"); void* o_write(void* o, const char* s, long n) { put(o, s, n); return o; }
void* o_put(void* o, char c) M("_ZNSo3putEc"); void* o_put(void* o, char c) { put(o, &c, 1); return o; }
// ---- input (only what the parsers use)
bool ios_good(const void* s) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv"); bool ios_good(const void* s) { SB* b = find(s); return b && !b->fail && !b->eof; }
bool ios_eof(const void* s) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv"); bool ios_eof(const void* s) { SB* b = find(s); return b && b->eof; }
bool ios_fail(const void* s) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv"); bool ios_fail(const void* s) { SB* b = find(s); return b && b->fail; }
bool ios_not(const void* s) M("_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv"); bool ios_not(const void* s) { SB* b = find(s); return b && b->fail; }
bool ios_bool(const void* s) M("_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv"); bool ios_bool(const void* s) { SB* b = find(s); return !(b && b->fail); }
void* i_read(void* i, char* d, long n) M("_ZNSi4readEPcl"); void* i_read(void* i, char* d, long n) { SB* b = find(i); long k = 0; while (b && k < n && b->rpos < b->s.size()) d[k++] = b->s[b->rpos++]; if (b && k < n) b->eof = b->fail = true; return i; }
int i_get(void* i) M("_ZNSi3getEv"); int i_get(void* i) { SB* b = find(i); if (!b || b->rpos >= b->s.size()) { if (b) b->eof = b->fail = true; return -1; } return (unsigned char)b->s[b->rpos++]; }
int i_peek(void* i) M("_ZNSi4peekEv"); int i_peek(void* i) { SB* b = find(i); if (!b || b->rpos >= b->s.size()) { if (b) b->eof = true; return -1; } return (unsigned char)b->s[b->rpos]; }
void* i_getline(void* i, std::string& s, char d) M("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_"); void* i_getline(void* i, std::string& s, char d) { SB* b = find(i); s.clear(); if (!b || b->rpos >= b->s.size()) { if (b) b->eof = b->fail = true; return i; } while (b->rpos < b->s.size()) { char c = b->s[b->rpos++]; if (c == d) return i; s.push_back(c); } b->eof = true; return i; }
// streambuf access: rdbuf() hands out the stream's own address as the token
void* ios_rdbuf(const void* s) M("_ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv"); void* ios_rdbuf(const void* s) { SB* b = find(s); return b ? b->lo + 8 : nullptr; }
int sb_sgetc(void* s) M("_ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetcEv"); int sb_sgetc(void* s) { SB* b = find(s); return !b || b->rpos >= b->s.size() ? -1 : (unsigned char)b->s[b->rpos]; }
int sb_sbumpc(void* s) M("_ZNSt15basic_streambufIcSt11char_traitsIcEE6sbumpcEv"); int sb_sbumpc(void* s) { SB* b = find(s); return !b || b->rpos >= b->s.size() ? -1 : (unsigned char)b->s[b->rpos++]; }
// ---- exceptions of the standard library: only their type matters
void ex_d2(void*) M("_ZNSt9exceptionD2Ev"); void ex_d2(void*) {} void ex_d1(void*) M("_ZNSt9exceptionD1Ev"); void ex_d1(void*) {}
void re_c1(void*, const char*) M("_ZNSt13runtime_errorC1EPKc"); void re_c1(void*, const char*) {} void re_c2(void*, const std::string&) M("_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void re_c2(void*, const std::string&) {}
void re_c3(void*, const char*) M("_ZNSt13runtime_errorC2EPKc"); void re_c3(void*, const char*) {} void re_c4(void*, const std::string&) M("_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void re_c4(void*, const std::string&) {} void re_d2(void*) M("_ZNSt13runtime_errorD2Ev"); void re_d2(void*) {}
void le_c1(void*, const char*) M("_ZNSt11logic_errorC1EPKc"); void le_c1(void*, const char*) {} void le_c2(void*, const std::string&) M("_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void le_c2(void*, const std::string&) {}
void le_c3(void*, const char*) M("_ZNSt11logic_errorC2EPKc"); void le_c3(void*, const char*) {} void le_d2(void*) M("_ZNSt11logic_errorD2Ev"); void le_d2(void*) {}
void ia_c1(void*, const char*) M("_ZNSt16invalid_argumentC1EPKc"); void ia_c1(void*, const char*) {} void ia_c2(void*, const std::string&) M("_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void ia_c2(void*, const std::string&) {}
void oor_c1(void*, const char*) M("_ZNSt12out_of_rangeC1EPKc"); void oor_c1(void*, const char*) {}
void ios_init() M("_ZSt21ios_base_library_initv"); void ios_init() {}
}
std::string oss_str(const void* s) M("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"); std::string oss_str(const void* s) { SB* b = find(s); return b ? b->s : std::string(); }
std::string ss_str(const void* s) M("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv"); std::string ss_str(const void* s) { SB* b = find(s); return b ? b->s : std::string(); }
void oss_strset(void* s, const std::string& x) M("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE"); void oss_strset(void* s, const std::string& x) { if (SB* b = find(s)) { b->s = x; b->rpos = 0; } }
void ss_strset(void* s, const std::string& x) M("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE"); void ss_strset(void* s, const std::string& x) { if (SB* b = find(s)) { b->s = x; b->rpos = 0; } }
