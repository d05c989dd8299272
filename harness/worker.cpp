// Verification worker: a parent process initialises nullc once and forks one child per request.
// A request is a list of operations on the public API; the child streams back one response per
// operation, so a crash or hang still shows which operations completed.
#include "NULLC/nullc.h"
#include "NULLC/nullc_debug.h"
#include "NULLC/nullbind.h"
#include "NULLC/includes/io.h"
#include "NULLC/includes/file.h"
#include "NULLC/includes/math.h"
#include "NULLC/includes/string.h"
#include "NULLC/includes/vector.h"
#include "NULLC/includes/random.h"
#include "NULLC/includes/time.h"
#include "NULLC/includes/gc.h"
#include "NULLC/includes/memory.h"
#include "NULLC/includes/error.h"
#include "NULLC/includes/pugi.h"
#include "NULLC/includes/canvas.h"

#include <string>
#include <vector>
#include <map>
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

typedef std::string S;
typedef std::vector<S> Frame;

static int inFd = 0, outFd = 1;

static bool readAll(void *p, size_t n)
{
	char *c = (char*)p;
	while(n)
	{
		ssize_t r = read(inFd, c, n);
		if(r < 0 && errno == EINTR) continue;
		if(r <= 0) return false;
		c += r; n -= r;
	}
	return true;
}
static void writeAll(const void *p, size_t n)
{
	const char *c = (const char*)p;
	while(n)
	{
		ssize_t r = write(outFd, c, n);
		if(r < 0 && errno == EINTR) continue;
		if(r <= 0) _exit(99);
		c += r; n -= r;
	}
}
static bool readFrame(Frame &f)
{
	unsigned n;
	f.clear();
	if(!readAll(&n, 4)) return false;
	for(unsigned i = 0; i < n; i++)
	{
		unsigned l;
		if(!readAll(&l, 4)) return false;
		S s; s.resize(l);
		if(l && !readAll(&s[0], l)) return false;
		f.push_back(s);
	}
	return true;
}
static void put32(S &s, unsigned v){ s.append((char*)&v, 4); }
static void writeFrame(const Frame &f)
{
	S s;
	put32(s, (unsigned)f.size());
	for(size_t i = 0; i < f.size(); i++){ put32(s, (unsigned)f[i].size()); s += f[i]; }
	writeAll(s.data(), s.size());
}
static S fmt(const char *f, ...)
{
	char buf[1024];
	va_list a; va_start(a, f); vsnprintf(buf, sizeof(buf), f, a); va_end(a);
	return buf;
}

// ---------------------------------------------------------------- io capture
static S ioOut, ioIn; static size_t ioInPos = 0;
static const size_t OUT_CAP = 1 << 20;
static unsigned ioWrite(void*, char *data, unsigned len){ if(ioOut.size() < OUT_CAP) ioOut.append(data, len); return len; }
static unsigned ioRead(void*, char *target, unsigned len)
{
	unsigned n = 0;
	while(n < len && ioInPos < ioIn.size()) target[n++] = ioIn[ioInPos++];
	return n;
}

// ---------------------------------------------------------------- trace module
static S trace;
static void trAdd(const S &s){ if(trace.size() < OUT_CAP) { trace += s; trace += '\n'; } }
static S dbl(double d)
{
	if(d != d) return "nan";
	long long b; memcpy(&b, &d, 8);
	return fmt("%016llx", b);
}
static void vt_ti(int x){ trAdd(fmt("i%d", x)); }
static void vt_tl(long long x){ trAdd(fmt("l%lld", x)); }
static void vt_td(double x){ trAdd("d" + dbl(x)); }
static void vt_ts(NULLCArray a){ S s = "s"; for(unsigned i = 0; i < a.len && a.ptr[i]; i++) s += a.ptr[i]; trAdd(s); }
static void vt_stop(NULLCArray a){ nullcThrowError("%s", a.ptr); }

// ---------------------------------------------------------------- C interop module

// ---------------------------------------------------------------- structured value dump
struct Dumper
{
	S out;
	std::map<std::pair<char*, unsigned>, int> seen;
	ExternTypeInfo *types; unsigned typeCount; ExternMemberInfo *mem; ExternVarInfo *vars; unsigned varCount; char *sym; ExternFuncInfo *funcs; unsigned funcCount;
	unsigned nodes;
	bool names;
	Dumper(): typeCount(0), varCount(0), funcCount(0), nodes(0), names(true)
	{
		types = nullcDebugTypeInfo(&typeCount);
		unsigned t; mem = nullcDebugTypeExtraInfo(&t);
		vars = nullcDebugVariableInfo(&varCount);
		sym = nullcDebugSymbols(&t);
		funcs = nullcDebugFunctionInfo(&funcCount);
	}
	S tn(unsigned t){ return t < typeCount ? S(sym + types[t].offsetToName) : fmt("?type%u", t); }
	void str(char *p, unsigned len)
	{
		out += '"';
		for(unsigned i = 0; i < len && i < 4096; i++)
		{
			unsigned char c = p[i];
			if(c >= 32 && c < 127 && c != '"' && c != '\\') out += (char)c; else out += fmt("\\x%02x", c);
		}
		out += '"';
	}
	void val(unsigned t, char *p, int depth)
	{
		if(++nodes > 20000){ out += "..."; return; }
		if(t >= typeCount){ out += fmt("?badtype%u", t); return; }
		ExternTypeInfo &ti = types[t];
		if(depth > 64){ out += "<deep>"; return; }
		switch(t)
		{
		case NULLC_TYPE_VOID: out += "void"; return;
		case NULLC_TYPE_BOOL: out += *p ? "true" : "false"; return;
		case NULLC_TYPE_TYPEID: { unsigned v; memcpy(&v, p, 4); out += "typeid:" + tn(v); return; }
		case NULLC_TYPE_AUTO_REF:
		{
			NULLCRef r; memcpy(&r, p, sizeof(r));
			if(!r.ptr){ out += "ref(null"; out += ")"; return; }
			out += "ref(" + tn(r.typeID) + ":"; ptr(r.typeID, r.ptr, depth); out += ")";
			return;
		}
		case NULLC_TYPE_AUTO_ARRAY:
		{
			NULLCAutoArray a; memcpy(&a, p, sizeof(a));
			if(!a.ptr){ out += fmt("autoarr(null,%u)", a.len); return; }
			out += "autoarr(" + tn(a.typeID) + ":"; arr(a.typeID, a.ptr, a.len, depth); out += ")";
			return;
		}
		case NULLC_TYPE_VOID_REF: case NULLC_TYPE_NULLPTR:
		{
			char *q; memcpy(&q, p, sizeof(q)); out += q ? "ptr" : "null"; return;
		}
		}
		switch(ti.subCat)
		{
		case ExternTypeInfo::CAT_ARRAY:
			if(ti.arrSize == ~0u)
			{
				NULLCArray a; memcpy(&a, p, sizeof(a));
				if(!a.ptr){ out += fmt("[null,%u]", a.len); return; }
				arr(ti.subType, a.ptr, a.len, depth);
			}else{
				arr(ti.subType, p, ti.arrSize, depth);
			}
			return;
		case ExternTypeInfo::CAT_POINTER:
		{
			char *q; memcpy(&q, p, sizeof(q));
			if(!q){ out += "null"; return; }
			ptr(ti.subType, q, depth);
			return;
		}
		case ExternTypeInfo::CAT_FUNCTION:
		{
			NULLCFuncPtr f; memcpy(&f, p, sizeof(f));
			if(!f.id && !f.context){ out += "fn(null)"; return; }
			out += "fn"; // functions names depend on compilation details
			return;
		}
		case ExternTypeInfo::CAT_CLASS:
			if(ti.type != ExternTypeInfo::TYPE_COMPLEX && ti.memberCount == 0) break; // enum
			if(ti.memberCount == 1 && ti.size == 4 && ti.type == ExternTypeInfo::TYPE_INT) {}
			{
				out += "{";
				bool ext = (ti.typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE) != 0;
				for(unsigned i = 0; i < ti.memberCount; i++)
				{
					ExternMemberInfo &m = mem[ti.memberOffset + i];
					if(i) out += ",";
					if(ext && i == 0){ unsigned v; memcpy(&v, p + m.offset, 4); out += "typeid:" + tn(v); continue; }
					val(m.type, p + m.offset, depth + 1);
				}
				out += "}";
			}
			return;
		default: break;
		}
		switch(ti.type)
		{
		case ExternTypeInfo::TYPE_CHAR: { signed char v = *(signed char*)p; out += fmt("%d", v); return; }
		case ExternTypeInfo::TYPE_SHORT: { short v; memcpy(&v, p, 2); out += fmt("%d", v); return; }
		case ExternTypeInfo::TYPE_INT: { int v; memcpy(&v, p, 4); out += fmt("%d", v); return; }
		case ExternTypeInfo::TYPE_LONG: { long long v; memcpy(&v, p, 8); out += fmt("%lld", v); return; }
		case ExternTypeInfo::TYPE_FLOAT: { float v; memcpy(&v, p, 4); if(v != v) out += "f:nan"; else { unsigned b; memcpy(&b, p, 4); out += fmt("f:%08x", b); } return; }
		case ExternTypeInfo::TYPE_DOUBLE: { double v; memcpy(&v, p, 8); out += "d:" + dbl(v); return; }
		default: out += "?"; return;
		}
	}
	void ptr(unsigned t, char *q, int depth)
	{
		std::pair<char*, unsigned> k(q, t);
		std::map<std::pair<char*, unsigned>, int>::iterator it = seen.find(k);
		if(it != seen.end()){ out += fmt("#%d", it->second); return; }
		int id = (int)seen.size();
		seen[k] = id;
		out += fmt("&%d=", id);
		val(t, q, depth + 1);
	}
	void arr(unsigned t, char *p, unsigned n, int depth)
	{
		if(t == NULLC_TYPE_CHAR){ out += fmt("%u", n); str(p, n); return; }
		out += fmt("%u[", n);
		unsigned sz = t < typeCount ? types[t].size : 0;
		for(unsigned i = 0; i < n; i++)
		{
			if(nodes > 20000){ out += "..."; break; }
			if(i) out += ",";
			val(t, p + (size_t)i * sz, depth + 1);
		}
		out += "]";
	}
};

#include "interop.h"
static bool pre(const char *s, const S &p){ return strncmp(s, p.c_str(), p.size()) == 0; }

// ---------------------------------------------------------------- std modules
static const char *gRepo = "/repo";
static void addPaths()
{
	nullcAddImportPath((S(gRepo) + "/Modules/").c_str());
}
static bool initStd(S &err)
{
#define I(x) if(!(x)) { err = S(#x) + ": " + nullcGetLastError(); return false; }
	I(nullcInitTypeinfoModule());
	I(nullcInitDynamicModule());
	I(nullcInitFileModule());
	I(nullcInitIOModule(0, ioWrite, ioRead));
	I(nullcInitMathModule());
	I(nullcInitStringModule());
	I(nullcInitVectorModule());
	I(nullcInitRandomModule());
	I(nullcInitTimeModule());
	I(nullcInitGCModule());
	I(nullcInitMemoryModule());
	I(nullcInitErrorModule());
	I(nullcInitPugiXMLModule());
	I(nullcLoadModuleBySource("vt", "void ti(int x);\r\nvoid tl(long x);\r\nvoid td(double x);\r\nvoid ts(char[] x);\r\nvoid stop(char[] x);\r\n"));
	I(nullcBindModuleFunctionHelper("vt", vt_ti, "ti", 0));
	I(nullcBindModuleFunctionHelper("vt", vt_tl, "tl", 0));
	I(nullcBindModuleFunctionHelper("vt", vt_td, "td", 0));
	I(nullcBindModuleFunctionHelper("vt", vt_ts, "ts", 0));
	I(nullcBindModuleFunctionHelper("vt", vt_stop, "stop", 0));
	return interopInit(err);
}

static std::map<S, S> slots;
static std::vector<S*> keepAlive;
static void *dbgCtx = 0;
#include "debugger.h"

static S lastErr(){ const char *e = nullcGetLastError(); return e ? e : ""; }

static bool haveResult = false;   // the last run of the code linked now succeeded: nothing is promised about results otherwise
static void resultFrame(Frame &r)
{
	if(!haveResult){ r.push_back("0"); r.push_back(""); r.push_back("none"); r.push_back(""); return; }
	unsigned t = nullcGetResultType();
	r.push_back(fmt("%u", t));
	S v;
	switch(t)
	{
	case NULLC_TYPE_BOOL: case NULLC_TYPE_CHAR: case NULLC_TYPE_SHORT: case NULLC_TYPE_INT: v = fmt("%d", nullcGetResultInt()); break;
	case NULLC_TYPE_LONG: v = fmt("%lld", nullcGetResultLong()); break;
	case NULLC_TYPE_FLOAT: case NULLC_TYPE_DOUBLE: v = dbl(nullcGetResultDouble()); break;
	default: break;
	}
	r.push_back(v);
	Dumper d;
	NULLCRef o = nullcGetResultObject();
	if(t && o.ptr) d.val(t, o.ptr, 0);
	r.push_back(t ? d.tn(t) : S("void"));
	r.push_back(d.out);
}

static S dumpGlobals(const S &prefix)
{
	Dumper d;
	unsigned sz = 0;
	char *data = (char*)nullcGetVariableData(&sz);
	if(!data || !d.vars) return "";
	S res;
	for(unsigned i = 0; i < d.varCount; i++)
	{
		const char *n = d.sym + d.vars[i].offsetToName;
		if(*n == '$' || !pre(n, prefix)) continue;
		d.out.clear();
		d.val(d.vars[i].type, data + d.vars[i].offset, 0);
		res += S(n) + ":" + d.tn(d.vars[i].type) + "=" + d.out + "\n";
	}
	return res;
}

static void noDep(const char*){}
static std::vector<S> deps;
static void addDep(const char *n){ deps.push_back(n); }

static S *keep(const S &s){ S *k = new S(s); keepAlive.push_back(k); return k; }

static bool exec1(const Frame &f, Frame &r)
{
	const S &op = f[0];
	#define A(i) (f.size() > (size_t)(i) ? f[i] : S())
	#define OK(x) do{ bool ok_ = (x) != 0; r.push_back(ok_ ? "1" : "0"); r.push_back(ok_ ? S() : lastErr()); }while(0)
	if(op == "build" || op == "link" || op == "clean" || op == "term") haveResult = false;
	if(op == "exec"){ nullcSetExecutor(atoi(A(1).c_str())); OK(true); }
	else if(op == "opt"){ nullcSetOptimizationLevel(atoi(A(1).c_str())); OK(true); }
	else if(op == "stack"){ OK(nullcSetExecutorStackSize(atoi(A(1).c_str()))); }
	else if(op == "memlimit"){ nullcSetGlobalMemoryLimit((unsigned)atoll(A(1).c_str())); OK(true); }
	else if(op == "build"){ S *k = keep(A(1)); if(f.size() > 2){ S *m = keep(A(2)); OK(nullcBuildWithModuleName(k->c_str(), m->c_str())); } else OK(nullcBuild(k->c_str())); }
	else if(op == "compile"){ S *k = keep(A(1)); OK(nullcCompile(k->c_str())); }
	else if(op == "analyze"){ S *k = keep(A(1)); OK(nullcAnalyze(k->c_str())); }
	else if(op == "bytecode")
	{
		char *bc = 0; unsigned n = A(2) == "nocache" ? nullcGetBytecodeNoCache(&bc) : nullcGetBytecode(&bc);
		r.push_back(n ? "1" : "0"); r.push_back("");
		if(n){ S &s = slots[A(1)]; s.assign(bc, n); delete[] bc; }
	}
	else if(op == "getslot"){ r.push_back("1"); r.push_back(""); r.push_back(slots[A(1)]); }
	else if(op == "setslot"){ slots[A(1)] = A(2); OK(true); }
	else if((op == "loadbin" || op == "link") && slots[A(op == "link" ? 1 : 2)].empty()) { r.push_back("0"); r.push_back("worker: empty slot"); }
	else if(op == "link"){ S *k = keep(slots[A(1)]); if(f.size() > 2){ S *m = keep(A(2)); OK(nullcLinkCodeWithModuleName(k->c_str(), m->c_str())); } else OK(nullcLinkCode(k->c_str())); }
	else if(op == "clean"){ nullcClean(); OK(true); }
	else if(op == "run"){ haveResult = nullcRun() != 0; OK(haveResult); }
	else if(op == "runfn"){ haveResult = nullcRunFunction(A(1).c_str()) != 0; OK(haveResult); }
	else if(op == "runfni"){ haveResult = nullcRunFunction(A(1).c_str(), atoi(A(2).c_str())) != 0; OK(haveResult); }
	else if(op == "result"){ r.push_back("1"); r.push_back(""); resultFrame(r); }
	else if(op == "resultstr"){ r.push_back("1"); r.push_back(""); const char *s = nullcGetResult(); r.push_back(s ? s : "(null)"); }
	else if(op == "finalize"){ OK(nullcFinalize()); }
	else if(op == "clearerr"){ nullcClearError(); OK(true); }
	else if(op == "clearfail"){ if(!haveResult) nullcClearError(); OK(true); }
	else if(op == "lasterr"){ r.push_back("1"); r.push_back(lastErr()); }
	else if(op == "errobj")
	{
		NULLCRef o = nullcGetLastErrorObject(); r.push_back("1"); r.push_back("");
		Dumper d; if(o.ptr){ d.out = d.tn(o.typeID) + ":"; d.val(o.typeID, o.ptr, 0); } r.push_back(d.out);
	}
	else if(op == "out"){ r.push_back("1"); r.push_back(""); r.push_back(ioOut); ioOut.clear(); }
	else if(op == "in"){ ioIn = A(1); ioInPos = 0; OK(true); }
	else if(op == "trace"){ r.push_back("1"); r.push_back(""); r.push_back(trace); trace.clear(); }
	else if(op == "globals"){ r.push_back("1"); r.push_back(""); r.push_back(dumpGlobals(A(1))); }
	else if(op == "evalexpr" || op == "evalinst")
	{
		static char buf[1 << 16]; buf[0] = 0;
		bool ok = op == "evalexpr" ? nullcTestEvaluateExpressionTree(buf, sizeof(buf)) : nullcTestEvaluateInstructionTree(buf, sizeof(buf));
		r.push_back(ok ? "1" : "0"); r.push_back(ok ? S() : lastErr()); r.push_back(buf);
	}
	else if(op == "loadsrc"){ S *k = keep(A(2)); OK(nullcLoadModuleBySource(A(1).c_str(), k->c_str())); }
	else if(op == "loadbin"){ S *k = keep(slots[A(2)]); OK(nullcLoadModuleByBinary(A(1).c_str(), k->c_str())); }
	else if(op == "remmod"){ nullcRemoveModule(A(1).c_str()); OK(true); }
	else if(op == "mods"){ r.push_back("1"); r.push_back(""); S s; for(unsigned i = 0; const char *n = nullcEnumerateModules(i); i++) s += S(n) + "\n"; r.push_back(s); }
	else if(op == "modbc")
	{
		const char *bc = (const char*)nullcGetModule(A(1).c_str());
		r.push_back(bc ? "1" : "0"); r.push_back("");
		if(bc){ slots[A(2)].assign(bc, ((ByteCode*)bc)->size); }
	}
	else if(op == "listing"){ OK(nullcSaveListing(A(1).c_str())); }
	else if(op == "translate")
	{
		deps.clear();
		bool ok = nullcTranslateToC(A(1).c_str(), A(2).c_str(), addDep); r.push_back(ok ? "1" : "0"); r.push_back(ok ? S() : lastErr());
		for(size_t i = 0; i < deps.size(); i++) r.push_back(deps[i]);
	}
	else if(op == "term"){ nullcTerminate(); OK(true); }
	else if(op == "init"){ OK(nullcInit()); }
	else if(op == "paths"){ addPaths(); OK(true); }
	else if(op == "addpath"){ nullcAddImportPath(A(1).c_str()); OK(true); }
	else if(op == "std"){ S e; bool ok = initStd(e); r.push_back(ok ? "1" : "0"); r.push_back(e); }
	else if(op == "getglobal")
	{
		char *p = (char*)nullcGetGlobal(A(1).c_str()); r.push_back(p ? "1" : "0"); r.push_back(p ? S() : lastErr());
		if(p){ unsigned t = nullcGetGlobalType(A(1).c_str()); Dumper d; d.val(t, p, 0); r.push_back(d.tn(t)); r.push_back(d.out); }
	}
	else if(op == "setglobal"){ S v = A(2); v.resize(v.size() + 16); OK(nullcSetGlobal(A(1).c_str(), &v[0])); }
	else if(op == "funcs")
	{
		Dumper d; S s; for(unsigned i = 0; i < d.funcCount; i++){ const char *n = d.sym + d.funcs[i].offsetToName; if(pre(n, A(1))) s += fmt("%u ", i) + n + ":" + d.tn(d.funcs[i].funcType) + "\n"; }
		r.push_back("1"); r.push_back(""); r.push_back(s);
	}
	else if(op == "types")
	{
		Dumper d; S s;
		for(unsigned i = 0; i < d.typeCount; i++) s += d.tn(i) + fmt(" size=%u pad=%u align=%u cat=%d sub=%d\n", d.types[i].size, d.types[i].padding, d.types[i].defaultAlign, d.types[i].type, d.types[i].subCat);
		r.push_back("1"); r.push_back(""); r.push_back(s);
	}
	else if(op == "setfn"){ NULLCFuncPtr p; bool ok = nullcGetFunction(A(2).c_str(), &p); if(ok) OK(nullcSetFunction(A(1).c_str(), p)); else OK(false); }
	else if(op == "redirect"){ OK(nullcRedirectFunction(atoi(A(1).c_str()), atoi(A(2).c_str()))); }
	else if(op == "callfnptr")
	{
		NULLCFuncPtr p; if(!nullcGetFunction(A(1).c_str(), &p)) OK(false);
		else if(f.size() > 2) OK(nullcCallFunction(p, atoi(A(2).c_str()))); else OK(nullcCallFunction(p));
	}
	else if(op == "modmem"){ nullcSetModuleAnalyzeMemoryLimit((unsigned)atoll(A(1).c_str())); OK(true); }
	else if(interopOp(f, r)) {}
	else if(debugOp(f, r)) {}
	else return false;
	return true;
}

int main(int argc, char **argv)
{
	if(const char *e = getenv("NULLC_REPO")) gRepo = e;
	// keep the protocol off stdout/stderr: nullc prints to them
	inFd = dup(0); outFd = dup(1);
	int nul = open("/dev/null", O_RDWR);
	dup2(nul, 0); dup2(nul, 1);
	if(!getenv("WORKER_STDERR")) dup2(nul, 2);
	signal(SIGPIPE, SIG_DFL);

	bool preload = !(argc > 1 && !strcmp(argv[1], "bare"));
	S err;
	bool ok = true;
	if(preload)
	{
		if(!nullcInit()) { ok = false; err = "nullcInit"; }
		addPaths();
		if(ok) ok = initStd(err);
		// warm the binary cache so that children do not recompile the library
		static const char *warm[] = { "std.algorithm", "std.vector", "std.list", "std.hashmap", "std.map", "std.event", "std.range", "std.string", "std.stringio", "std.math", "std.typeinfo", "std.io", "std.file", "std.gc", "std.memory", "std.error", "std.dynamic", "std.random", "std.time", "std.math_swizzle", "ext.pugixml", 0 };
		for(int i = 0; ok && warm[i]; i++)
		{
			S code = S("import ") + warm[i] + "; return 1;";
			if(!nullcBuild(code.c_str())) { ok = false; err = S(warm[i]) + ": " + lastErr(); }
		}
		nullcClean();
		ioOut.clear(); trace.clear();
	}
	{ Frame h; h.push_back(ok ? "ready" : "initfail"); h.push_back(err); writeFrame(h); }

	Frame f;
	while(readFrame(f))
	{
		// f: [timeout_ms, asmb, nops]
		int tmo = atoi(f[0].c_str()); long asmb = f.size() > 1 ? atol(f[1].c_str()) : 0; int nops = f.size() > 2 ? atoi(f[2].c_str()) : 0;
		std::vector<Frame> ops(nops);
		for(int i = 0; i < nops; i++) if(!readFrame(ops[i])) return 0;
		pid_t pid = fork();
		if(pid == 0)
		{
			struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = tmo / 1000 + 1; rl.rlim_max = rl.rlim_cur + 5; setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
			if(asmb){ rl.rlim_cur = rl.rlim_max = (rlim_t)asmb << 20; setrlimit(RLIMIT_AS, &rl); }
			struct itimerval it; memset(&it, 0, sizeof(it));
			it.it_value.tv_sec = tmo / 1000; it.it_value.tv_usec = (tmo % 1000) * 1000;
			setitimer(ITIMER_PROF, &it, 0);
			alarm(tmo / 1000 * 8 + 20);
			for(int i = 0; i < nops; i++)
			{
				Frame r; r.push_back(ops[i][0]);
				if(!exec1(ops[i], r)){ r.push_back("0"); r.push_back("WORKER: unknown operation"); }
				writeFrame(r);
			}
			_exit(0);
		}
		int st = 0;
		while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
		Frame e; e.push_back("end");
		if(WIFEXITED(st)) e.push_back(fmt("exit%d", WEXITSTATUS(st)));
		else e.push_back(fmt("sig%d", WTERMSIG(st)));
		writeFrame(e);
	}
	return 0;
}
