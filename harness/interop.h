#ifdef VERIF_INTEROP
#include <deque>
static void rec(S &o, bool v){ o += fmt("%d", (int)v); }
static void rec(S &o, char v){ o += fmt("%d", (int)v); }
static void rec(S &o, short v){ o += fmt("%d", (int)v); }
static void rec(S &o, int v){ o += fmt("%d", v); }
static void rec(S &o, long long v){ o += fmt("%lld", v); }
static void rec(S &o, double v){ unsigned long long b; memcpy(&b, &v, 8); o += fmt("d%016llx", b); }
static void rec(S &o, float v){ rec(o, (double)v); }
static void rec(S &o, int *v){ if(v) rec(o, *v); else o += "null"; }
static void rec(S &o, NULLCRef v)
{
	if(!v.ptr){ o += "null"; return; }
	if(v.typeID == NULLC_TYPE_INT){ o += "i:"; int x; memcpy(&x, v.ptr, 4); rec(o, x); }
	else if(v.typeID == NULLC_TYPE_DOUBLE){ o += "d:"; double x; memcpy(&x, v.ptr, 8); rec(o, x); }
	else o += fmt("type %u", v.typeID);
}
static void recI(S &o, NULLCArray v){ o += fmt("[%u", v.len); for(unsigned i = 0; i < v.len; i++){ int x; memcpy(&x, v.ptr + i * 4, 4); o += ","; rec(o, x); } o += "]"; }
static void recD(S &o, NULLCArray v){ o += fmt("[%u", v.len); for(unsigned i = 0; i < v.len; i++){ double x; memcpy(&x, v.ptr + i * 8, 8); o += ","; rec(o, x); } o += "]"; }
static void rec(S &o, NULLCAutoArray v)
{
	o += fmt("<%u", v.len);
	for(unsigned i = 0; i < v.len; i++)
	{
		o += ","; if(v.typeID == NULLC_TYPE_INT){ int x; memcpy(&x, v.ptr + i * 4, 4); rec(o, x); } else if(v.typeID == NULLC_TYPE_DOUBLE){ double x; memcpy(&x, v.ptr + i * 8, 8); rec(o, x); } else o += fmt("type %u", v.typeID);
	}
	o += ">";
}
static void rec(S &o, NULLCFuncPtr v)
{
	if(!v.id){ o += "null"; return; }
	if(nullcCallFunction(v, 3)) o += fmt("fn:%d", nullcGetResultInt()); else o += "failed";
}
struct TI;
static void rec(S &o, const TI &v);
static void hrec(const S &o){ trace += o + "\n"; }

static std::deque<S> heldArgs;
static int arg_int(const Frame &f, unsigned &p){ return atoi(f[p++].c_str()); }
static int arg_bool(const Frame &f, unsigned &p){ return arg_int(f, p); }
static int arg_char(const Frame &f, unsigned &p){ return arg_int(f, p); }
static int arg_short(const Frame &f, unsigned &p){ return arg_int(f, p); }
static long long arg_long(const Frame &f, unsigned &p){ return atoll(f[p++].c_str()); }
static double arg_double(const Frame &f, unsigned &p){ return strtod(f[p++].c_str(), 0); }
static float arg_float(const Frame &f, unsigned &p){ return (float)arg_double(f, p); }
static char* held(const S &s){ heldArgs.push_back(s); return &heldArgs.back()[0]; }
static NULLCArray arg_iarr(const Frame &f, unsigned &p)
{
	S s, t = f[p++]; size_t at = 0; NULLCArray a = { 0, 0 };
	while(at < t.size()){ size_t e = t.find(',', at); if(e == S::npos) e = t.size(); int v = atoi(t.substr(at, e - at).c_str()); s.append((char*)&v, 4); at = e + 1; a.len++; }
	if(a.len) a.ptr = held(s);
	return a;
}
static NULLCAutoArray arg_aarr(const Frame &f, unsigned &p){ NULLCArray a = arg_iarr(f, p); NULLCAutoArray r; r.typeID = NULLC_TYPE_INT; r.ptr = a.ptr; r.len = a.len; return r; }
static int* arg_iref(const Frame &f, unsigned &p){ S t = f[p++]; if(t == "null") return 0; int v = atoi(t.c_str()); return (int*)held(S((char*)&v, 4)); }
static NULLCRef arg_aref(const Frame &f, unsigned &p)
{
	S t = f[p++]; NULLCRef r = { 0, 0 };
	if(t == "null") return r;
	if(t[0] == 'i'){ int v = atoi(t.c_str() + 1); r.typeID = NULLC_TYPE_INT; r.ptr = held(S((char*)&v, 4)); }
	else { double v = strtod(t.c_str() + 1, 0); r.typeID = NULLC_TYPE_DOUBLE; r.ptr = held(S((char*)&v, 8)); }
	return r;
}
static NULLCFuncPtr arg_fn(const Frame &f, unsigned &p){ NULLCFuncPtr r; memset(&r, 0, sizeof(r)); nullcGetFunction(f[p++].c_str(), &r); return r; }

#define I(x) if(!(x)) { err = S(#x) + ": " + nullcGetLastError(); return false; }
#include "interop_gen.h"
static void rec(S &o, const TI &v){ unsigned n = 0; ExternTypeInfo *t = nullcDebugTypeInfo(&n); o += v.id < n ? nullcDebugSymbols(0) + t[v.id].offsetToName : "?"; }
static void callResult(S &o)
{
	NULLCRef r = nullcGetResultObject(); Dumper d; o += d.tn(r.typeID) + "="; if(r.ptr && r.typeID) d.val(r.typeID, r.ptr, 0); o += d.out;
}
static Frame splitArgs(const char *s, unsigned n)
{
	Frame f; S c; for(unsigned i = 0; i < n && s[i]; i++){ if(s[i] == '|'){ f.push_back(c); c.clear(); } else c += s[i]; } return f;
}
static void hcb(int sig, NULLCArray args, NULLCRef fn)
{
	Frame f = splitArgs(args.ptr, args.len); NULLCFuncPtr p; memcpy(&p, fn.ptr, sizeof(p));
	S o = "hcb "; if(interopCall(sig, 0, &p, f, 0)) callResult(o); else o += "failed";
	hrec(o);
}
static int hrun(NULLCArray name, int x){ S n(name.ptr, name.len ? strlen(name.ptr) : 0); if(!nullcRunFunction(n.c_str(), x)) return -1; return nullcGetResultInt(); }
static bool interopInit(S &err)
{
	I(nullcLoadModuleBySource("hs", interopTypes));
	I(nullcLoadModuleBySource("hi", interopFunctions));
	I(nullcLoadModuleBySource("hw", interopFunctions));
	I(nullcBindModuleFunction("hi", (void(*)())hcb, "hcb", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hrun, "hrun", 0));
	I(nullcBindModuleFunctionHelper("hw", hcb, "hcb", 0));
	I(nullcBindModuleFunctionHelper("hw", hrun, "hrun", 0));
	return interopBind(err);
}
#undef I
static bool interopOp(const Frame &f, Frame &r)
{
	if(f[0] != "hcall") return false;
	// hcall SIG NAME ARGS...: call a script function with the given arguments; the trace keeps what it saw
	int ok = interopCall(atoi(f[1].c_str()), f[2].c_str(), 0, f, 3);
	r.push_back(ok ? "1" : "0"); r.push_back(ok ? S() : S(nullcGetLastError())); S o; if(ok) callResult(o); r.push_back(o);
	return true;
}
#else
static bool interopInit(S &err){ (void)err; return true; }
static bool interopOp(const Frame &f, Frame &r){ (void)f; (void)r; return false; }
#endif
