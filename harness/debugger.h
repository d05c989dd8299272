// debugger operations: breakpoints, a scripted break function and the recorded stops
struct DbgStop{ unsigned inst, depth; size_t traceLen; unsigned frames; };
static std::vector<DbgStop> dbgStops;
struct DbgCmd{ unsigned resp; char act; unsigned inst; };
static std::vector<DbgCmd> dbgScript; static size_t dbgPos, dbgMax; static bool dbgCycle;
static S dbgActs;
static unsigned dbgBreak(void *ctx, unsigned inst)
{
	(void)ctx;
	unsigned depth = 0;
	nullcDebugBeginCallStack();
	while(nullcDebugGetStackFrame()) depth++;
	size_t lines = 0; for(size_t i = 0; i < trace.size(); i++) lines += trace[i] == '\n';
	DbgStop s = { inst, depth, lines, nullcDebugGetStackFrameCount() };
	if(dbgStops.size() < dbgMax) dbgStops.push_back(s);
	unsigned n; (void)nullcGetVariableData(&n);
	DbgCmd c = { 0, 0, 0 };
	if(!dbgScript.empty()){ if(dbgCycle) c = dbgScript[dbgPos % dbgScript.size()]; else if(dbgPos < dbgScript.size()) c = dbgScript[dbgPos]; }
	dbgPos++;
	if(c.act && dbgActs.size() < 20000) dbgActs += (c.act == '+' ? nullcDebugAddBreakpoint(c.inst) : c.act == '!' ? nullcDebugAddOneHitBreakpoint(c.inst) : nullcDebugRemoveBreakpoint(c.inst)) ? '1' : '0';
	return c.resp;
}
static int dbgLine(unsigned inst, unsigned &column)
{
	const char *loc = nullcDebugGetInstructionSourceLocation(inst);
	unsigned m = nullcDebugGetSourceLocationModuleIndex(loc);
	if(m != ~0u) return -1;
	return (int)nullcDebugGetSourceLocationLineAndColumn(loc, m, column);
}
static bool debugOp(const Frame &f, Frame &r)
{
	const S &op = f[0];
	if(op == "dbgadd" || op == "dbgonce" || op == "dbgrem")
	{
		unsigned i = (unsigned)strtoul(f[1].c_str(), 0, 10);
		nullres ok = op == "dbgadd" ? nullcDebugAddBreakpoint(i) : op == "dbgonce" ? nullcDebugAddOneHitBreakpoint(i) : nullcDebugRemoveBreakpoint(i);
		r.push_back(ok ? "1" : "0"); r.push_back(ok ? "" : S(nullcGetLastError())); return true;
	}
	if(op == "dbgset")	// list of instructions, separated by spaces
	{
		S bad; const char *p = f[1].c_str();
		while(*p){ char *e; unsigned i = (unsigned)strtoul(p, &e, 10); if(e == p) break; p = e; if(!nullcDebugAddBreakpoint(i)) bad += fmt("%u ", i); }
		r.push_back("1"); r.push_back(""); r.push_back(bad); return true;
	}
	if(op == "dbgclear"){ nullres ok = nullcDebugClearBreakpoints(); r.push_back(ok ? "1" : "0"); r.push_back(""); return true; }
	if(op == "dbgscript")	// responses, cycle (0/1), maximal number of recorded stops
	{
		dbgScript.clear(); dbgActs.clear(); const char *p = f[1].c_str();
		while(*p)	// responses with an optional change of breakpoints: 0 1+12 2-12 0!12
		{
			DbgCmd c = { (unsigned)(*p++ - '0'), 0, 0 };
			if(*p && *p != ' '){ c.act = *p++; char *e; c.inst = (unsigned)strtoul(p, &e, 10); p = e; }
			while(*p == ' ') p++;
			dbgScript.push_back(c);
		}
		dbgCycle = f[2] == "1"; dbgMax = (size_t)atoi(f[3].c_str()); dbgPos = 0; dbgStops.clear();
		nullres ok = nullcDebugSetBreakFunction(0, dbgBreak);
		r.push_back(ok ? "1" : "0"); r.push_back(""); return true;
	}
	if(op == "dbgstops")
	{
		S o; for(size_t i = 0; i < dbgStops.size(); i++) o += fmt("%u %u %u %u\n", dbgStops[i].inst, dbgStops[i].depth, (unsigned)dbgStops[i].traceLen, dbgStops[i].frames);
		r.push_back("1"); r.push_back(""); r.push_back(o); r.push_back(fmt("%u", (unsigned)dbgPos)); r.push_back(dbgActs); return true;
	}
	if(op == "dbginfo")	// source line of every instruction of the main program (-1: other modules), and function address ranges
	{
		S o; unsigned n = 0; S q;
		ExternSourceInfo *si = nullcDebugSourceInfo(&n); unsigned last = 0;
		for(unsigned i = 0; i < n; i++) if(si[i].instruction > last) last = si[i].instruction;
		unsigned fc = 0; ExternFuncInfo *fi = nullcDebugFunctionInfo(&fc);
		for(unsigned i = 0; i < fc; i++) if(fi[i].regVmAddress != -1 && (unsigned)fi[i].regVmAddress + fi[i].regVmCodeSize > last) last = (unsigned)fi[i].regVmAddress + fi[i].regVmCodeSize;
		for(unsigned i = 0; i <= last; i++){ unsigned c = 0; int l = dbgLine(i, c); o += fmt("%d ", l); }
		for(unsigned i = 0; i < n; i++){ unsigned c = 0; q += fmt("%u %d\n", si[i].instruction, dbgLine(si[i].instruction, c)); }
		r.push_back("1"); r.push_back(""); r.push_back(o); r.push_back(q); return true;
	}
	return false;
}
