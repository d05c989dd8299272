// generated by lib/interop.py; do not edit
#pragma pack(push, 4)
struct TI{ unsigned id; };
#pragma pack(pop)
struct S1 { int a; };
static void rec(S &o, const S1 &v){ o += "{"; rec(o, v.a); o += "}"; }
static void rec(S &o, S1 *v){ if(v) rec(o, *v); else o += "null"; }
struct S2 { int a; int b; };
static void rec(S &o, const S2 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S2 *v){ if(v) rec(o, *v); else o += "null"; }
struct S3 { int a; int b; int c; };
static void rec(S &o, const S3 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += "}"; }
static void rec(S &o, S3 *v){ if(v) rec(o, *v); else o += "null"; }
struct S4 { long long a; };
static void rec(S &o, const S4 &v){ o += "{"; rec(o, v.a); o += "}"; }
static void rec(S &o, S4 *v){ if(v) rec(o, *v); else o += "null"; }
struct S5 { double a; };
static void rec(S &o, const S5 &v){ o += "{"; rec(o, v.a); o += "}"; }
static void rec(S &o, S5 *v){ if(v) rec(o, *v); else o += "null"; }
struct S6 { float a; };
static void rec(S &o, const S6 &v){ o += "{"; rec(o, v.a); o += "}"; }
static void rec(S &o, S6 *v){ if(v) rec(o, *v); else o += "null"; }
struct S7 { float a; float b; };
static void rec(S &o, const S7 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S7 *v){ if(v) rec(o, *v); else o += "null"; }
struct S8 { float a; float b; float c; };
static void rec(S &o, const S8 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += "}"; }
static void rec(S &o, S8 *v){ if(v) rec(o, *v); else o += "null"; }
struct S9 { float a; int b; };
static void rec(S &o, const S9 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S9 *v){ if(v) rec(o, *v); else o += "null"; }
struct S10 { double a; double b; };
static void rec(S &o, const S10 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S10 *v){ if(v) rec(o, *v); else o += "null"; }
struct S11 { long long a; double b; };
static void rec(S &o, const S11 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S11 *v){ if(v) rec(o, *v); else o += "null"; }
struct S12 { long long a; int b; };
static void rec(S &o, const S12 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S12 *v){ if(v) rec(o, *v); else o += "null"; }
struct S13 { char a; char b; };
static void rec(S &o, const S13 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S13 *v){ if(v) rec(o, *v); else o += "null"; }
struct S14 { char a; short b; int c; };
static void rec(S &o, const S14 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += "}"; }
static void rec(S &o, S14 *v){ if(v) rec(o, *v); else o += "null"; }
struct S15 { short a; };
static void rec(S &o, const S15 &v){ o += "{"; rec(o, v.a); o += "}"; }
static void rec(S &o, S15 *v){ if(v) rec(o, *v); else o += "null"; }
struct S16 { double a; float b; };
static void rec(S &o, const S16 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S16 *v){ if(v) rec(o, *v); else o += "null"; }
struct S17 { int a; double b; };
static void rec(S &o, const S17 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S17 *v){ if(v) rec(o, *v); else o += "null"; }
struct S18 { char a; double b; int c; };
static void rec(S &o, const S18 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += "}"; }
static void rec(S &o, S18 *v){ if(v) rec(o, *v); else o += "null"; }
struct S19 { long long a; long long b; long long c; long long d; };
static void rec(S &o, const S19 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += ","; rec(o, v.d); o += "}"; }
static void rec(S &o, S19 *v){ if(v) rec(o, *v); else o += "null"; }
struct S21 { bool a; char b; float c; };
static void rec(S &o, const S21 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += "}"; }
static void rec(S &o, S21 *v){ if(v) rec(o, *v); else o += "null"; }
struct S25 { float a; float b; float c; float d; };
static void rec(S &o, const S25 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += ","; rec(o, v.d); o += "}"; }
static void rec(S &o, S25 *v){ if(v) rec(o, *v); else o += "null"; }
struct S27 { float a; char b; short c; double d; };
static void rec(S &o, const S27 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += ","; rec(o, v.d); o += "}"; }
static void rec(S &o, S27 *v){ if(v) rec(o, *v); else o += "null"; }
struct S28 { char a; };
static void rec(S &o, const S28 &v){ o += "{"; rec(o, v.a); o += "}"; }
static void rec(S &o, S28 *v){ if(v) rec(o, *v); else o += "null"; }
struct S29 { int a; long long b; short c; };
static void rec(S &o, const S29 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += "}"; }
static void rec(S &o, S29 *v){ if(v) rec(o, *v); else o += "null"; }
struct S32 { float a; float b; int c; int d; };
static void rec(S &o, const S32 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += ","; rec(o, v.d); o += "}"; }
static void rec(S &o, S32 *v){ if(v) rec(o, *v); else o += "null"; }
struct S33 { int a; int b; float c; float d; };
static void rec(S &o, const S33 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += ","; rec(o, v.d); o += "}"; }
static void rec(S &o, S33 *v){ if(v) rec(o, *v); else o += "null"; }
struct S34 { double a; long long b; };
static void rec(S &o, const S34 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S34 *v){ if(v) rec(o, *v); else o += "null"; }
struct S35 { float a; double b; };
static void rec(S &o, const S35 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += "}"; }
static void rec(S &o, S35 *v){ if(v) rec(o, *v); else o += "null"; }
struct S36 { short a; short b; short c; float d; float e; };
static void rec(S &o, const S36 &v){ o += "{"; rec(o, v.a); o += ","; rec(o, v.b); o += ","; rec(o, v.c); o += ","; rec(o, v.d); o += ","; rec(o, v.e); o += "}"; }
static void rec(S &o, S36 *v){ if(v) rec(o, *v); else o += "null"; }
static float hf0(char a0, double a1, NULLCArray a2, float a3, S36 a4, S35 a5, short a6, S1 *self){ S o = "h0"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " this"; rec(o, self); hrec(o); return 1820923.0f; }
static S16 hf1(bool a0, char a1, short a2, short a3, int a4, int a5, char a6){ S o = "h1"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); S16 r; memset(&r, 0, sizeof(r)); r.a = 592006636349041.0; r.b = -1.0f; return r; }
static char hf2(double a0, TI a1, S29* a2, S12 a3, char a4, NULLCFuncPtr a5, int a6, S34 a7){ S o = "h2"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return 52; }
static S28* hf3(bool a0, S28 a1, double a2, int* a3, S6 a4, S2 a5, NULLCAutoArray a6, double a7, S28* a8, long long a9, NULLCArray a10, int* a11, NULLCRef a12){ S o = "h3"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; recI(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a8; }
static long long hf4(S18 a0){ S o = "h4"; o += " "; rec(o, a0); hrec(o); return 3180927654300246797LL; }
static float hf5(float a0, S21 a1, NULLCRef a2, double a3, NULLCArray a4){ S o = "h5"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; recI(o, a4); hrec(o); return a0; }
static bool hf6(long long a0, int a1, char a2, char a3, short a4, long long a5, bool a6, long long a7, bool a8, int a9, short a10, bool a11, S28 *self){ S o = "h6"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " this"; rec(o, self); hrec(o); return a6; }
static float hf7(S11 *self){ S o = "h7"; o += " this"; rec(o, self); hrec(o); return -34.75f; }
static bool hf8(long long a0, bool a1, short a2, long long a3, short a4, int a5, short a6, bool a7, long long a8, bool a9){ S o = "h8"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a7; }
static S14 hf9(char a0, long long a1, bool a2, TI a3, char a4, int a5){ S o = "h9"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); S14 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = -16974; r.c = 520798174; return r; }
static double hf10(NULLCArray a0, short a1, float a2, int a3, TI a4, double a5, double a6, double a7, NULLCArray a8, double a9, int a10){ S o = "h10"; o += " "; recI(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; recI(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return a5; }
static S33 hf11(float a0, double a1, double a2){ S o = "h11"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S33 r; memset(&r, 0, sizeof(r)); r.a = 2147483647; r.b = -1; r.c = 0.0f; r.d = 0.0f; return r; }
static S5 hf12(double a0, short a1, int a2, bool a3, float a4, float a5, char a6, float a7, double a8, int a9, float a10, int a11){ S o = "h12"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = -1502210.400390625; return r; }
static S34 hf13(S34 a0, S16 a1, S15 a2, S19 a3, S34 a4, S33 a5, S12 a6, S11 a7){ S o = "h13"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S34 r; memset(&r, 0, sizeof(r)); r.a = -1.625; r.b = 0LL; return r; }
static S28 hf14(S35 *self){ S o = "h14"; o += " this"; rec(o, self); hrec(o); S28 r; memset(&r, 0, sizeof(r)); r.a = -128; return r; }
static S13 hf15(double a0, bool a1, float a2){ S o = "h15"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = -128; r.b = 1; return r; }
static S3 hf16(NULLCFuncPtr a0, long long a1, short a2, bool a3, S35 a4, S3 a5){ S o = "h16"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return a5; }
static double hf17(float a0, double a1){ S o = "h17"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return 216183.7109375; }
static void hf18(S33 a0, S35 a1, S18 a2, S11 a3, S17 a4, S33 a5, S16 a6, S34 a7){ S o = "h18"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o);  }
static S9 hf19(S16 a0, S18 a1, S4 a2, S19 a3, S19 a4, S15 a5, S19 a6, S35 a7){ S o = "h19"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S9 r; memset(&r, 0, sizeof(r)); r.a = 0.5f; r.b = 1; return r; }
static S18 hf20(S27 a0, S11 a1, S12 a2, S28 a3, S17 a4, S18 a5, S15 *self){ S o = "h20"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " this"; rec(o, self); hrec(o); return a5; }
static S36 hf21(double a0, double a1, double a2){ S o = "h21"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S36 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = -1; r.c = -32768; r.d = 1471509.0f; r.e = 0.0f; return r; }
static short hf22(int a0, S14 a1, char a2, int a3, double a4, int a5, NULLCArray a6, int* a7, double a8, int a9, char a10){ S o = "h22"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; recD(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return -10713; }
static void hf23(S15 a0, S10 a1, S28 a2, S21 a3, S14 a4, S11 a5, S3 a6, S1 a7){ S o = "h23"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o);  }
static S25 hf24(){ S o = "h24"; hrec(o); S25 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = 0.0f; r.c = 48114.125f; r.d = 0.5f; return r; }
static void hf25(double a0, int a1, float a2, double a3, double a4, bool a5, short a6, bool a7, int a8, int a9, bool a10, double a11, float a12){ S o = "h25"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o);  }
static S2 hf26(S2 a0, S11 a1, S36 a2, S36 a3){ S o = "h26"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); return a0; }
static short hf27(float a0, short a1){ S o = "h27"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return -32768; }
static double hf28(float a0, float a1, float a2, double a3, float a4, float a5, double a6, double a7, double a8, float a9, S10 *self){ S o = "h28"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o); return a6; }
static char hf29(double a0, bool a1, bool a2, char a3, short a4, float a5, char a6, double a7, long long a8, char a9, short a10, short a11, float a12){ S o = "h29"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a6; }
static short hf30(S3 a0, S12 a1){ S o = "h30"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return -19943; }
static double hf31(double a0, float a1, float a2, float a3, double a4, double a5, double a6, float a7, float a8, double a9, float a10, double a11){ S o = "h31"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return a0; }
static short hf32(short a0){ S o = "h32"; o += " "; rec(o, a0); hrec(o); return a0; }
static void hf33(short a0){ S o = "h33"; o += " "; rec(o, a0); hrec(o);  }
static int hf34(NULLCAutoArray a0, NULLCAutoArray a1, short a2, S9 a3, S15 a4, int a5, S8* a6, S18 a7, double a8, S10* a9, double a10, char a11, int a12){ S o = "h34"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a5; }
static S14 hf35(S11 a0, S11 a1, S32 a2, S9 a3, S34 a4, S35 a5, S7 a6, S28 a7){ S o = "h35"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S14 r; memset(&r, 0, sizeof(r)); r.a = 127; r.b = -1; r.c = -911729020; return r; }
static S5 hf36(float a0, float a1, double a2, float a3, int a4, bool a5, float a6, float a7, char a8, double a9, char a10, char a11, short a12, char a13){ S o = "h36"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = -120.75; return r; }
static void hf37(double a0, double a1, int a2, int* a3, S34 a4){ S o = "h37"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o);  }
static double hf38(double a0, float a1, float a2, double a3, float a4, double a5, float a6, double a7, float a8, float a9, double a10){ S o = "h38"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return a7; }
static bool hf39(NULLCRef a0, int* a1, short a2, int* a3, NULLCFuncPtr a4, S2 a5){ S o = "h39"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return 0; }
static S16 hf40(S16 a0, S11 a1, S17 a2, S5 a3, S3 a4, S19 a5){ S o = "h40"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return a0; }
static S36 hf41(long long a0, long long a1, bool a2, long long a3, bool a4, bool a5, short a6, double a7){ S o = "h41"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S36 r; memset(&r, 0, sizeof(r)); r.a = -29689; r.b = -1; r.c = -32768; r.d = -4.25f; r.e = 0.5f; return r; }
static void hf42(bool a0, S1 a1, NULLCArray a2, NULLCFuncPtr a3, int a4, int a5, S25 a6, TI a7, float a8, S12 a9, S19 *self){ S o = "h42"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o);  }
static double hf43(long long a0, int a1, bool a2, double a3, int a4, S34 a5, S11* a6){ S o = "h43"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a3; }
static float hf44(bool a0, int a1, long long a2, bool a3, float a4, long long a5, float a6, char a7, bool a8, char a9){ S o = "h44"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a4; }
static double hf45(double a0){ S o = "h45"; o += " "; rec(o, a0); hrec(o); return a0; }
static S29 hf46(S11 a0, S4 a1, S10 a2){ S o = "h46"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S29 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = -725411754LL; r.c = -1; return r; }
static char hf47(double a0, int a1, long long a2, int a3, char a4, TI a5, float a6, int a7, int a8){ S o = "h47"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return -1; }
static double hf48(){ S o = "h48"; hrec(o); return -319407.64453125; }
static S25 hf49(float a0, bool a1, short a2, long long a3, char a4, bool a5, long long a6, char a7, long long a8, bool a9, bool a10, double a11, int a12, long long a13){ S o = "h49"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); S25 r; memset(&r, 0, sizeof(r)); r.a = -2288374.0f; r.b = 0.5f; r.c = 0.0f; r.d = -1.0f; return r; }
static S18 hf50(S21 a0, S4 a1, S18 a2){ S o = "h50"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S11 hf51(S11 a0, S4 a1, S29 a2, S10 a3, S32 a4, S6 a5, S33 a6, S14 a7){ S o = "h51"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S11 r; memset(&r, 0, sizeof(r)); r.a = -9223372036854775807LL; r.b = -14130.5205078125; return r; }
static char hf52(int* a0, S2 a1, int a2, float a3, S4 a4, S18 a5, short a6, char a7, NULLCAutoArray a8, NULLCArray a9, bool a10, int a11){ S o = "h52"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; recD(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return a7; }
static S7* hf53(NULLCArray a0, short a1, bool a2, NULLCArray a3, bool a4, int a5, S7* a6, NULLCArray a7){ S o = "h53"; o += " "; recD(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; recI(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; recD(o, a7); hrec(o); return a6; }
static float hf54(double a0, double a1, float a2, float a3, float a4, double a5, float a6, double a7){ S o = "h54"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return 0.0f; }
static S19 hf55(S19 a0){ S o = "h55"; o += " "; rec(o, a0); hrec(o); return a0; }
static S21 hf56(double a0, double a1, float a2, float a3, double a4, S16 *self){ S o = "h56"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " this"; rec(o, self); hrec(o); S21 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = 127; r.c = -84.375f; return r; }
static S4 hf57(long long a0, NULLCFuncPtr a1, S27 a2, TI a3, NULLCArray a4, S14* a5, NULLCRef a6, long long a7, NULLCRef a8, NULLCFuncPtr a9, long long a10, S18 a11, S16 *self){ S o = "h57"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; recD(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " this"; rec(o, self); hrec(o); S4 r; memset(&r, 0, sizeof(r)); r.a = -1LL; return r; }
static int hf58(int a0, S11* a1, S33 a2, long long a3, bool a4, short a5){ S o = "h58"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return a0; }
static S10 hf59(int a0, bool a1, char a2, bool a3, int a4, short a5, char a6, short a7, bool a8){ S o = "h59"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S10 r; memset(&r, 0, sizeof(r)); r.a = -317048927079655.0; r.b = -96.0; return r; }
static char hf60(int a0, int a1, double a2, S14 a3, double a4, int a5, char a6){ S o = "h60"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a6; }
static float hf61(float a0, float a1, float a2){ S o = "h61"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a0; }
static double hf62(NULLCAutoArray a0, S32* a1, double a2, int a3, S14 a4, S5 a5, int* a6, long long a7, char a8, bool a9){ S o = "h62"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a2; }
static S33 hf63(NULLCAutoArray a0, char a1, S13* a2, short a3, S33* a4, NULLCAutoArray a5, NULLCArray a6, TI a7, float a8){ S o = "h63"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; recI(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S33 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = -300491441; r.c = -3433022.0f; r.d = 3484630.0f; return r; }
static bool hf64(bool a0, char a1, short a2, long long a3, int a4, double a5, bool a6){ S o = "h64"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return 0; }
static double hf65(double a0, float a1, double a2, float a3, float a4){ S o = "h65"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return a2; }
static int hf66(int a0, TI a1, double a2, double a3, double a4, NULLCAutoArray a5, long long a6, S10* a7, double a8, S13* a9, float a10, int* a11, S8 *self){ S o = "h66"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " this"; rec(o, self); hrec(o); return 1; }
static S2 hf67(S2 a0, int a1){ S o = "h67"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a0; }
static float hf68(){ S o = "h68"; hrec(o); return 0.0f; }
static S4 hf69(S27 a0, NULLCFuncPtr a1, char a2, NULLCArray a3, char a4, NULLCFuncPtr a5, S10 a6, int a7){ S o = "h69"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; recD(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S4 r; memset(&r, 0, sizeof(r)); r.a = -1792901060LL; return r; }
static S12 hf70(int a0, char a1, double a2, float a3, short a4, double a5, long long a6, double a7, long long a8, short a9){ S o = "h70"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = -1994568440LL; r.b = -2015713745; return r; }
static S14 hf71(double a0, float a1, short a2, long long a3, long long a4, short a5, char a6, bool a7, short a8, short a9, long long a10, char a11){ S o = "h71"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); S14 r; memset(&r, 0, sizeof(r)); r.a = 127; r.b = -32768; r.c = -2114795809; return r; }
static S21 hf72(S18 a0, S4 a1, S25 a2, S36 a3, S35 a4, S21 a5, S4 a6, S16 a7){ S o = "h72"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a5; }
static S34 hf73(TI a0, double a1, double a2, long long a3, short a4, S28* a5, char a6, double a7, short a8, int a9, S33 *self){ S o = "h73"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o); S34 r; memset(&r, 0, sizeof(r)); r.a = 56258.4375; r.b = 9223372036854775807LL; return r; }
static S34 hf74(S34 a0, S28 a1, S14 *self){ S o = "h74"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a0; }
static S12 hf75(int* a0, short a1, S28 a2){ S o = "h75"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = 9223372036854775807LL; r.b = 640024634; return r; }
static bool hf76(){ S o = "h76"; hrec(o); return 0; }
static void hf77(int a0, double a1, double a2, int a3, double a4, int a5, NULLCAutoArray a6, int a7, long long a8, S34 *self){ S o = "h77"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " this"; rec(o, self); hrec(o);  }
static bool hf78(long long a0, int a1, int a2, short a3, short a4, bool a5, bool a6, long long a7, long long a8, char a9, int a10, bool a11, int a12, long long a13){ S o = "h78"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a11; }
static S5 hf79(S15 a0, S12 a1, S34 a2, S36 a3, S5 a4, S17 a5, S36 a6, S34 a7){ S o = "h79"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a4; }
static short hf80(long long a0, short a1, short a2, long long a3, short a4, short a5, char a6, int a7, int a8, long long a9){ S o = "h80"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a1; }
static void hf81(S9 a0){ S o = "h81"; o += " "; rec(o, a0); hrec(o);  }
static long long hf82(long long a0, long long a1, long long a2, long long a3, int a4, char a5, short a6, long long a7, int a8, int a9, bool a10, char a11){ S o = "h82"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return a0; }
static void hf83(S33 a0, S33 a1, S8 a2, S4 a3, S3 a4, S27 a5){ S o = "h83"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o);  }
static float hf84(bool a0){ S o = "h84"; o += " "; rec(o, a0); hrec(o); return 3144312.0f; }
static S15 hf85(S29 a0){ S o = "h85"; o += " "; rec(o, a0); hrec(o); S15 r; memset(&r, 0, sizeof(r)); r.a = 32767; return r; }
static long long hf86(long long a0){ S o = "h86"; o += " "; rec(o, a0); hrec(o); return a0; }
static S11 hf87(bool a0, long long a1, S32 a2, float a3){ S o = "h87"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S11 r; memset(&r, 0, sizeof(r)); r.a = 1359210588LL; r.b = 2071097.25390625; return r; }
static short hf88(double a0, float a1, double a2, double a3, double a4, double a5, S9 *self){ S o = "h88"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " this"; rec(o, self); hrec(o); return -32768; }
static S5 hf89(short a0, int a1, S15* a2, NULLCRef a3, char a4, float a5, NULLCRef a6, long long a7, S27 a8, NULLCFuncPtr a9, int a10){ S o = "h89"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = 285658.9404296875; return r; }
static long long hf90(short a0, bool a1, char a2, short a3, int a4, long long a5, long long a6, short a7, long long a8, int a9, S36 *self){ S o = "h90"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o); return a6; }
static S27 hf91(long long a0, bool a1, int* a2, int a3, int a4, long long a5, S10* a6, char a7, bool a8, long long a9, S10 a10, S6 *self){ S o = "h91"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " this"; rec(o, self); hrec(o); S27 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = 127; r.c = 0; r.d = 1046341638237597.0; return r; }
static S3 hf92(){ S o = "h92"; hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = 1366910038; r.b = 0; r.c = -1; return r; }
static S10 hf93(int a0, S10 a1){ S o = "h93"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S10 r; memset(&r, 0, sizeof(r)); r.a = 717747373900916.0; r.b = 807006.1904296875; return r; }
static bool hf94(float a0, float a1, int a2, double a3, bool a4){ S o = "h94"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return a4; }
static float hf95(char a0, char a1, bool a2, long long a3, bool a4, bool a5, bool a6, float a7){ S o = "h95"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a7; }
static float hf96(short a0, S5 a1, NULLCRef a2, char a3, int* a4, NULLCArray a5, S27 a6, bool a7, float a8, TI a9, NULLCArray a10){ S o = "h96"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recD(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; recD(o, a10); hrec(o); return a8; }
static S5 hf97(float a0, bool a1, double a2, double a3, double a4, short a5, float a6, float a7, bool a8, int a9, long long a10, long long a11, S34 *self){ S o = "h97"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " this"; rec(o, self); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = 62770.99609375; return r; }
static NULLCArray hf98(int a0, int a1, NULLCFuncPtr a2, S35* a3, S11 a4, float a5, S6* a6, NULLCArray a7, TI a8, S7* a9){ S o = "h98"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; recD(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a7; }
static NULLCFuncPtr hf99(NULLCFuncPtr a0, NULLCArray a1){ S o = "h99"; o += " "; rec(o, a0); o += " "; recD(o, a1); hrec(o); return a0; }
static S12 hf100(int a0, float a1, int a2){ S o = "h100"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = -5486493770230542755LL; r.b = 2147483647; return r; }
static S33 hf101(double a0){ S o = "h101"; o += " "; rec(o, a0); hrec(o); S33 r; memset(&r, 0, sizeof(r)); r.a = 2147483647; r.b = -1; r.c = 3632069.0f; r.d = -1.0f; return r; }
static NULLCFuncPtr hf102(double a0, long long a1, NULLCArray a2, NULLCFuncPtr a3, bool a4, NULLCArray a5, NULLCAutoArray a6, char a7, NULLCFuncPtr a8, S9* a9, float a10, bool a11, S21 a12){ S o = "h102"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recD(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a8; }
static S5 hf103(int a0, bool a1){ S o = "h103"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = -973418.3388671875; return r; }
static char hf104(long long a0, char a1, short a2, short a3, bool a4, char a5, char a6){ S o = "h104"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static float hf105(bool a0, long long a1, float a2){ S o = "h105"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static double hf106(bool a0, double a1, S35 a2, S2 a3, S33 a4, float a5){ S o = "h106"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return a1; }
static long long hf107(char a0, int a1, char a2, short a3, long long a4, short a5, long long a6, long long a7, int a8, int a9){ S o = "h107"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a6; }
static int hf108(int a0, bool a1, S9 *self){ S o = "h108"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a0; }
static S28 hf109(){ S o = "h109"; hrec(o); S28 r; memset(&r, 0, sizeof(r)); r.a = 0; return r; }
static void hf110(short a0, short a1, S4 a2, S25* a3, int a4, S14 a5, bool a6, NULLCRef a7, float a8, S32* a9, bool a10, S8* a11, char a12){ S o = "h110"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o);  }
static short hf111(long long a0, short a1, int a2, int a3, short a4, int a5, int a6){ S o = "h111"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a1; }
static double hf112(S12* a0, double a1, char a2, long long a3, double a4){ S o = "h112"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return -1554457.3994140625; }
static S32 hf113(double a0, double a1, float a2, double a3, double a4, double a5, double a6, float a7, float a8){ S o = "h113"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S32 r; memset(&r, 0, sizeof(r)); r.a = -1462606.0f; r.b = 0.0f; r.c = 0; r.d = 2147483647; return r; }
static bool hf114(bool a0, char a1, float a2, int a3, double a4, int a5, bool a6, float a7, short a8, long long a9, int a10, long long a11){ S o = "h114"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return 0; }
static short hf115(int a0, char a1, char a2, short a3, long long a4, int a5, short a6, long long a7){ S o = "h115"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return -1; }
static float hf116(float a0, bool a1, long long a2, float a3, bool a4, short a5, long long a6, float a7, long long a8, char a9, long long a10, bool a11, float a12, S8 *self){ S o = "h116"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " this"; rec(o, self); hrec(o); return a7; }
static S35 hf117(float a0, double a1, float a2, double a3){ S o = "h117"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S35 r; memset(&r, 0, sizeof(r)); r.a = -111.375f; r.b = 116495320730445.0; return r; }
static S15 hf118(S34 a0, S3 a1, S21 a2, S35 a3, S32 a4, S8 a5, S6 a6, S2 a7, S35 *self){ S o = "h118"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); S15 r; memset(&r, 0, sizeof(r)); r.a = 0; return r; }
static void hf119(float a0, double a1, float a2, double a3, float a4, float a5, float a6, double a7, float a8, double a9){ S o = "h119"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o);  }
static double hf120(float a0, float a1, float a2, double a3, double a4, double a5, double a6, float a7, float a8){ S o = "h120"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return -981764.8623046875; }
static S16 hf121(float a0, float a1, float a2, double a3){ S o = "h121"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S16 r; memset(&r, 0, sizeof(r)); r.a = -979028091842193.0; r.b = -1.0f; return r; }
static float hf122(float a0, long long a1, bool a2, long long a3, bool a4, long long a5, short a6, float a7){ S o = "h122"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a0; }
static float hf123(float a0, float a1, float a2, float a3, float a4){ S o = "h123"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return a4; }
static S1 hf124(S34 a0, S27 a1, S7 a2, S4 a3, S13 a4, S19 a5, S1 a6, S19 a7, S21 *self){ S o = "h124"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); return a6; }
static double hf125(double a0, double a1, float a2){ S o = "h125"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a0; }
static S8 hf126(S15 a0, S2 a1, S8 a2, S19 a3, S32 a4, S10 a5, S8 a6, S18 a7){ S o = "h126"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a6; }
static long long hf127(float a0, long long a1){ S o = "h127"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static S36 hf128(char a0, bool a1, bool a2, int a3, bool a4, long long a5, char a6, bool a7, char a8, bool a9, char a10, short a11){ S o = "h128"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); S36 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = -1; r.c = -1; r.d = 0.5f; r.e = -1.0f; return r; }
static S13 hf129(S16 a0, S33 a1, S5 a2, S15 a3, S35 a4, S21 a5, S7 a6, S8 a7, S19 *self){ S o = "h129"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = -122; r.b = 0; return r; }
static S12 hf130(double a0, bool a1, int a2, double a3, bool a4, double a5, bool a6, int a7, S8 *self){ S o = "h130"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = -3043990074318376161LL; r.b = -318803292; return r; }
static S4 hf131(S4 a0, S35 a1, S15 a2, S15 a3, S28 a4, S35 a5, S34 a6, S4 a7){ S o = "h131"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S4 r; memset(&r, 0, sizeof(r)); r.a = 9223372036854775807LL; return r; }
static short hf132(S28 a0, S5* a1, NULLCArray a2, char a3, S21 a4, short a5, NULLCAutoArray a6){ S o = "h132"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static int* hf133(NULLCAutoArray a0, int* a1, double a2){ S o = "h133"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a1; }
static S35 hf134(S11 a0, float a1, int a2, S1 a3, int a4, char a5, float a6, NULLCArray a7, S16 a8, S27* a9){ S o = "h134"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; recD(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); S35 r; memset(&r, 0, sizeof(r)); r.a = -62244.625f; r.b = 0.5; return r; }
static S16 hf135(NULLCArray a0, long long a1, NULLCArray a2, long long a3, float a4, int a5, S13* a6, NULLCArray a7){ S o = "h135"; o += " "; recD(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; recD(o, a7); hrec(o); S16 r; memset(&r, 0, sizeof(r)); r.a = -1.0; r.b = 0.5f; return r; }
static S13 hf136(int a0, short a1){ S o = "h136"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = 1; return r; }
static int hf137(NULLCArray a0, int a1, float a2){ S o = "h137"; o += " "; recD(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a1; }
static void hf138(S28 a0, S35 a1, S3 a2, S34 a3, S18 a4, S2 a5, S3 a6, S35 a7){ S o = "h138"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o);  }
static S8 hf139(){ S o = "h139"; hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = 144811.0f; r.b = 0.5f; r.c = -1.0f; return r; }
static S5 hf140(S5 a0, S3 a1, S16 a2, S6 a3, S16 a4){ S o = "h140"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return a0; }
static S25 hf141(S17 a0, int* a1, S25 *self){ S o = "h141"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); S25 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = -1.0f; r.c = -43268.1875f; r.d = -1.0f; return r; }
static S10 hf142(short a0, NULLCArray a1, NULLCRef a2, NULLCArray a3, S4* a4, short a5){ S o = "h142"; o += " "; rec(o, a0); o += " "; recD(o, a1); o += " "; rec(o, a2); o += " "; recD(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); S10 r; memset(&r, 0, sizeof(r)); r.a = 190319256988596.0; r.b = 0.5; return r; }
static float hf143(long long a0, long long a1, short a2){ S o = "h143"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return -19.0f; }
static float hf144(float a0, float a1, double a2, float a3, double a4, float a5, double a6, float a7, float a8, float a9, float a10, double a11, double a12, double a13){ S o = "h144"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a9; }
static S36 hf145(float a0, double a1, float a2){ S o = "h145"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S36 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = -1; r.c = -2564; r.d = -1.0f; r.e = 3977943.0f; return r; }
static S5 hf146(bool a0){ S o = "h146"; o += " "; rec(o, a0); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = -1.0; return r; }
static long long hf147(short a0, long long a1, int a2, long long a3, bool a4, int a5, bool a6, bool a7, short a8, bool a9, int a10, char a11, char a12){ S o = "h147"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a1; }
static TI hf148(double a0, float a1, NULLCArray a2, TI a3, int a4, long long a5, long long a6, S10 a7, int a8, S5* a9, int* a10, S15 a11, float a12){ S o = "h148"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recD(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a3; }
static S25 hf149(S35 a0, S4 a1, S19 a2, S27 a3, S25 a4, S28 a5, S1 a6, S2 a7){ S o = "h149"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a4; }
static S21 hf150(short a0, float a1){ S o = "h150"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S21 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = -1; r.c = -59.375f; return r; }
static S11 hf151(float a0, double a1){ S o = "h151"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S11 r; memset(&r, 0, sizeof(r)); r.a = 9223372036854775807LL; r.b = -719747232877905.0; return r; }
static S6 hf152(float a0, double a1){ S o = "h152"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S6 r; memset(&r, 0, sizeof(r)); r.a = -1.0f; return r; }
static S2 hf153(double a0, short a1, double a2, double a3, int a4, S16* a5, int a6, S12 *self){ S o = "h153"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " this"; rec(o, self); hrec(o); S2 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = 1; return r; }
static S9 hf154(long long a0, int a1){ S o = "h154"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S9 r; memset(&r, 0, sizeof(r)); r.a = -1.0f; r.b = 0; return r; }
static double hf155(double a0, double a1, long long a2){ S o = "h155"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a0; }
static S9 hf156(char a0, bool a1, long long a2){ S o = "h156"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S9 r; memset(&r, 0, sizeof(r)); r.a = -1.0f; r.b = -1; return r; }
static short hf157(long long a0, S36 *self){ S o = "h157"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return 9135; }
static S9 hf158(int a0, bool a1, short a2, S34 *self){ S o = "h158"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o); S9 r; memset(&r, 0, sizeof(r)); r.a = 107.75f; r.b = 0; return r; }
static void hf159(double a0){ S o = "h159"; o += " "; rec(o, a0); hrec(o);  }
static S3 hf160(){ S o = "h160"; hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = -2147483647; r.b = -669353421; r.c = 0; return r; }
static S3 hf161(S3 a0, S6 a1, S19 a2){ S o = "h161"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a0; }
static char hf162(NULLCFuncPtr a0, S3 a1, NULLCArray a2, char a3, bool a4, S7 *self){ S o = "h162"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recD(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " this"; rec(o, self); hrec(o); return a3; }
static NULLCFuncPtr hf163(NULLCFuncPtr a0){ S o = "h163"; o += " "; rec(o, a0); hrec(o); return a0; }
static double hf164(bool a0, float a1, NULLCRef a2, S28* a3, int a4, short a5, S5 a6, double a7, S3 a8){ S o = "h164"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static void hf165(int a0, char a1, S10 *self){ S o = "h165"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o);  }
static S19 hf166(S19 a0, S35 a1){ S o = "h166"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a0; }
static void hf167(double a0, double a1){ S o = "h167"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o);  }
static S8 hf168(float a0, TI a1, double a2, double a3, char a4, long long a5, int* a6, NULLCArray a7){ S o = "h168"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; recI(o, a7); hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = -1.0f; r.b = -3210047.0f; r.c = -65.125f; return r; }
static short hf169(short a0, char a1, double a2, S4 a3, S10 a4, TI a5, bool a6, S17* a7, float a8, S11 *self){ S o = "h169"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " this"; rec(o, self); hrec(o); return -32768; }
static short hf170(short a0, char a1, S13 *self){ S o = "h170"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a0; }
static S3 hf171(float a0, double a1, float a2, double a3, double a4, double a5, float a6, double a7){ S o = "h171"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = 2147483647; r.c = 1; return r; }
static S4 hf172(NULLCRef a0, S29 a1, S4 a2){ S o = "h172"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static bool hf173(int a0, bool a1, char a2, bool a3, int a4, char a5, int a6, bool a7, short a8, int a9, short a10, short a11, int a12, char a13){ S o = "h173"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a1; }
static NULLCAutoArray hf174(short a0, NULLCAutoArray a1){ S o = "h174"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static short hf175(long long a0, bool a1, bool a2, bool a3, int a4, long long a5, int a6, int a7, bool a8, bool a9, int a10, char a11){ S o = "h175"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return -1; }
static S19 hf176(S19 a0){ S o = "h176"; o += " "; rec(o, a0); hrec(o); return a0; }
static S28 hf177(S2 a0, S34 a1, S1 a2, S7 a3, S25 a4, S21 a5, S34 a6, S18 a7){ S o = "h177"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S28 r; memset(&r, 0, sizeof(r)); r.a = 127; return r; }
static S3 hf178(){ S o = "h178"; hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = 1; r.c = 2147483647; return r; }
static S17 hf179(S14 a0, short a1, float a2, NULLCFuncPtr a3, float a4, long long a5, S17 a6, S2* a7, TI a8, NULLCAutoArray a9, S36 a10, double a11, S4 a12, S27* a13){ S o = "h179"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a6; }
static void hf180(TI a0, NULLCArray a1){ S o = "h180"; o += " "; rec(o, a0); o += " "; recD(o, a1); hrec(o);  }
static char hf181(bool a0, double a1, char a2, double a3, int a4, int a5, int a6, float a7, long long a8, short a9, char a10, S15 *self){ S o = "h181"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " this"; rec(o, self); hrec(o); return a2; }
static S15 hf182(bool a0, char a1, float a2, char a3, long long a4, bool a5, char a6, short a7, long long a8, double a9){ S o = "h182"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); S15 r; memset(&r, 0, sizeof(r)); r.a = -32768; return r; }
static float hf183(float a0){ S o = "h183"; o += " "; rec(o, a0); hrec(o); return a0; }
static int hf184(int a0){ S o = "h184"; o += " "; rec(o, a0); hrec(o); return a0; }
static S1 hf185(S1 a0, S6 a1, S27 a2, S34 *self){ S o = "h185"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o); return a0; }
static bool hf186(double a0, S4 *self){ S o = "h186"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return 1; }
static int hf187(double a0){ S o = "h187"; o += " "; rec(o, a0); hrec(o); return 0; }
static S8 hf188(){ S o = "h188"; hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = 0.5f; r.c = -1.0f; return r; }
static S10 hf189(S21 a0, S15 a1, S7 a2){ S o = "h189"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S10 r; memset(&r, 0, sizeof(r)); r.a = 0.5; r.b = 18899.8125; return r; }
static long long hf190(double a0, double a1, float a2, float a3, float a4, double a5, float a6, float a7, float a8, double a9, float a10, float a11, double a12){ S o = "h190"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return -1LL; }
static long long hf191(double a0, S4* a1, double a2, NULLCRef a3, bool a4, char a5, float a6, int* a7){ S o = "h191"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return 0LL; }
static char hf192(char a0, TI a1, int a2, short a3, S29 a4, int a5, double a6, int a7, double a8, double a9, int a10){ S o = "h192"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return 127; }
static double hf193(double a0, double a1, double a2, double a3, double a4, float a5){ S o = "h193"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return 1107638.8916015625; }
static short hf194(){ S o = "h194"; hrec(o); return 32767; }
static int hf195(double a0, int a1, double a2, int a3, double a4, bool a5, long long a6, int a7, short a8, bool a9, float a10, int a11){ S o = "h195"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return a3; }
static float hf196(int a0, int a1, NULLCAutoArray a2){ S o = "h196"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return -928825.0f; }
static double hf197(double a0, double a1){ S o = "h197"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a0; }
static float hf198(float a0, float a1, double a2){ S o = "h198"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a0; }
static S32 hf199(){ S o = "h199"; hrec(o); S32 r; memset(&r, 0, sizeof(r)); r.a = -21219.5f; r.b = 0.5f; r.c = 1; r.d = 412780848; return r; }
static S25 hf200(NULLCRef a0, NULLCAutoArray a1, bool a2){ S o = "h200"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S25 r; memset(&r, 0, sizeof(r)); r.a = 3354548.0f; r.b = 0.0f; r.c = 0.0f; r.d = 0.0f; return r; }
static S19 hf201(S34 a0, S19 a1){ S o = "h201"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static double hf202(bool a0, S25 *self){ S o = "h202"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return 0.5; }
static short hf203(NULLCArray a0, float a1, NULLCFuncPtr a2, short a3, long long a4, TI a5, S9 a6, S3* a7, S32 a8, float a9, int* a10, S27* a11, int a12){ S o = "h203"; o += " "; recI(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a3; }
static long long hf204(S6 a0, NULLCFuncPtr a1, short a2, TI a3, NULLCRef a4, char a5, S8 a6, int* a7, bool a8, long long a9, NULLCAutoArray a10, float a11, int a12){ S o = "h204"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a9; }
static bool hf205(long long a0, char a1, int a2, S8 *self){ S o = "h205"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o); return 0; }
static long long hf206(char a0, long long a1, char a2, double a3, S6 *self){ S o = "h206"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " this"; rec(o, self); hrec(o); return -5096721043976987108LL; }
static char hf207(){ S o = "h207"; hrec(o); return 127; }
static S14 hf208(long long a0, NULLCRef a1, S1 a2){ S o = "h208"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S14 r; memset(&r, 0, sizeof(r)); r.a = 83; r.b = -1; r.c = 100174955; return r; }
static void hf209(int a0, bool a1, char a2, int a3, bool a4, int a5, int a6, int a7, long long a8, int a9){ S o = "h209"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o);  }
static short hf210(char a0, float a1, long long a2, short a3, long long a4, float a5, float a6, bool a7, short a8, long long a9, long long a10, float a11){ S o = "h210"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return a3; }
static float hf211(short a0, float a1, double a2, long long a3, long long a4, float a5, short a6, bool a7, double a8, S4 *self){ S o = "h211"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " this"; rec(o, self); hrec(o); return 0.5f; }
static bool hf212(float a0, float a1, double a2){ S o = "h212"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return 0; }
static S29 hf213(S10 a0, S33 a1, S21 a2, S9 a3, S28 a4, S33 a5, S29 a6, S18 a7){ S o = "h213"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a6; }
static double hf214(float a0, double a1, S27 *self){ S o = "h214"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a1; }
static long long hf215(char a0, S16 a1, int a2, short a3, char a4, short a5, NULLCArray a6, double a7, char a8, double a9, int a10, double a11, int a12){ S o = "h215"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; recI(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return -1956422954LL; }
static void hf216(short a0){ S o = "h216"; o += " "; rec(o, a0); hrec(o);  }
static S8 hf217(double a0, S4 a1, int a2, double a3, short a4, NULLCArray a5, S9 a6, float a7, S12 a8, S34 *self){ S o = "h217"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recD(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " this"; rec(o, self); hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = 14906.125f; r.b = 9527.75f; r.c = -1.0f; return r; }
static char hf218(int a0, double a1, char a2, int a3, int a4, long long a5, int a6, double a7, int a8, double a9, S18 a10, S27 a11, double a12, double a13){ S o = "h218"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a2; }
static S13 hf219(S1 a0, S15 a1, int a2, S19* a3, double a4, int a5, S13 a6, long long a7, int a8){ S o = "h219"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a6; }
static float hf220(double a0, double a1, float a2, double a3, double a4, float a5, float a6, double a7, double a8, double a9, double a10){ S o = "h220"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return a2; }
static void hf221(float a0, double a1){ S o = "h221"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o);  }
static void hf222(S29 a0, S21 a1, long long a2, S11 a3, int a4, S14* a5, S5 a6, int a7, bool a8, bool a9, bool a10, long long a11, S25* a12){ S o = "h222"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o);  }
static S3 hf223(float a0, double a1, float a2){ S o = "h223"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = 916675717; r.b = -6422453; r.c = -1; return r; }
static S33 hf224(double a0, int a1, double a2, short a3){ S o = "h224"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S33 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = -1; r.c = -4309.125f; r.d = 0.5f; return r; }
static int hf225(int a0, long long a1, char a2, char a3, int a4, char a5, bool a6, long long a7, char a8, long long a9, short a10, long long a11, bool a12, short a13){ S o = "h225"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a0; }
static S18 hf226(S4 a0, NULLCRef a1, float a2, NULLCRef a3, NULLCRef a4){ S o = "h226"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); S18 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = 886481086696647.0; r.c = -1; return r; }
static double hf227(double a0, float a1, double a2){ S o = "h227"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S8 hf228(){ S o = "h228"; hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = 0.0f; r.c = 0.0f; return r; }
static S10 hf229(S5 a0, S1 a1, S29 a2, S10 a3, S10 *self){ S o = "h229"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " this"; rec(o, self); hrec(o); return a3; }
static long long hf230(float a0, float a1, char a2, long long a3, double a4, float a5, bool a6, float a7, float a8, char a9, bool a10, float a11, char a12){ S o = "h230"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return 9223372036854775807LL; }
static long long hf231(int a0, bool a1, long long a2, int a3, short a4, short a5, long long a6, S18 *self){ S o = "h231"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " this"; rec(o, self); hrec(o); return a2; }
static float hf232(long long a0, long long a1, S9 a2, int a3, float a4, NULLCRef a5, NULLCArray a6, S3 a7, NULLCArray a8, float a9, double a10, NULLCAutoArray a11){ S o = "h232"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; recI(o, a6); o += " "; rec(o, a7); o += " "; recD(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return a4; }
static S28 hf233(S13 *self){ S o = "h233"; o += " this"; rec(o, self); hrec(o); S28 r; memset(&r, 0, sizeof(r)); r.a = 1; return r; }
static long long hf234(double a0, float a1, float a2, double a3, float a4, float a5, double a6, double a7){ S o = "h234"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return -148169396LL; }
static void hf235(S29 a0, S3 a1, S6 a2, S16 a3, S35 a4, S27 a5, S21 a6, S32 a7){ S o = "h235"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o);  }
static float hf236(S3 *self){ S o = "h236"; o += " this"; rec(o, self); hrec(o); return -2930269.0f; }
static long long hf237(long long a0, bool a1, int a2){ S o = "h237"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return -1431769551LL; }
static short hf238(S2 a0, short a1){ S o = "h238"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return -4894; }
static double hf239(double a0, float a1, float a2, double a3, double a4, double a5, double a6, float a7, float a8, double a9, double a10){ S o = "h239"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return a0; }
static double hf240(float a0, double a1, S9 *self){ S o = "h240"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a1; }
static S13 hf241(float a0, S14 *self){ S o = "h241"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = 35; r.b = -5; return r; }
static S9 hf242(double a0, int a1, NULLCArray a2, NULLCAutoArray a3, S18 a4, short a5, double a6, S3 *self){ S o = "h242"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " this"; rec(o, self); hrec(o); S9 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = 1; return r; }
static S3 hf243(){ S o = "h243"; hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = 2147483647; r.b = -2147483647; r.c = 0; return r; }
static int hf244(S5 a0){ S o = "h244"; o += " "; rec(o, a0); hrec(o); return -2147483647; }
static void hf245(S8 a0, S3 a1, S14 a2, S1 a3){ S o = "h245"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o);  }
static int hf246(double a0, int a1, S6 a2, S5* a3, double a4, float a5, double a6, S35 a7, float a8, double a9){ S o = "h246"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a1; }
static float hf247(float a0, float a1, double a2, double a3, float a4, double a5, double a6, float a7, float a8, float a9, float a10, float a11, double a12){ S o = "h247"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a11; }
static int hf248(char a0, long long a1, S25 *self){ S o = "h248"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return 0; }
static double hf249(TI a0, long long a1, S2 a2, int a3, long long a4, double a5, char a6, S12 *self){ S o = "h249"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " this"; rec(o, self); hrec(o); return a5; }
static short hf250(short a0, int a1, bool a2, long long a3, int a4, char a5, long long a6){ S o = "h250"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a0; }
static void hf251(int a0, NULLCAutoArray a1, double a2, int a3, S35 a4, int a5, S32 a6, char a7, double a8, double a9, S32 a10, double a11){ S o = "h251"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o);  }
static S12 hf252(S12 a0, NULLCFuncPtr a1, char a2, double a3, S29 a4, TI a5){ S o = "h252"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = 9223372036854775807LL; r.b = 0; return r; }
static void hf253(bool a0, NULLCArray a1, int a2, NULLCFuncPtr a3){ S o = "h253"; o += " "; rec(o, a0); o += " "; recD(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o);  }
static S15 hf254(S15 a0, int a1, NULLCRef a2, int a3, int a4, double a5, char a6, NULLCArray a7, double a8, char a9, char a10, NULLCArray a11, int a12, int a13){ S o = "h254"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; recI(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; recD(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a0; }
static char hf255(float a0, float a1, float a2, double a3, float a4, double a5, float a6, double a7, S8 *self){ S o = "h255"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); return 0; }
static bool hf256(long long a0, double a1, int a2, bool a3, double a4){ S o = "h256"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return 0; }
static double hf257(float a0, double a1, double a2, double a3){ S o = "h257"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); return a1; }
static S19 hf258(float a0, float a1, double a2){ S o = "h258"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S19 r; memset(&r, 0, sizeof(r)); r.a = 9223372036854775807LL; r.b = 0LL; r.c = -1435504061LL; r.d = -9223372036854775807LL; return r; }
static long long hf259(float a0, long long a1, S27 *self){ S o = "h259"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a1; }
static double hf260(double a0){ S o = "h260"; o += " "; rec(o, a0); hrec(o); return a0; }
static S32 hf261(S7 a0, S3 a1, S32 a2, S34 a3, S14 a4, S28 a5, S21 a6, S14 a7){ S o = "h261"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S32 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = 120.875f; r.c = -2147483647; r.d = 2147483647; return r; }
static S13 hf262(float a0, char a1, float a2, S36 a3){ S o = "h262"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = 13; return r; }
static short hf263(bool a0, bool a1, float a2, short a3, short a4, long long a5, double a6){ S o = "h263"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return 0; }
static S21 hf264(char a0, bool a1, long long a2, long long a3, double a4, int a5){ S o = "h264"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); S21 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = -128; r.c = 0.5f; return r; }
static char hf265(NULLCFuncPtr a0, NULLCAutoArray a1, S14 a2, char a3, S33 a4, TI a5, short a6, S16 a7, NULLCArray a8, NULLCAutoArray a9, NULLCFuncPtr a10, bool a11, S25 a12, S1 *self){ S o = "h265"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; recI(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " this"; rec(o, self); hrec(o); return a3; }
static S1 hf266(long long a0, bool a1, bool a2, S17 a3, S27* a4, double a5, double a6, long long a7){ S o = "h266"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S1 r; memset(&r, 0, sizeof(r)); r.a = 2147483647; return r; }
static short hf267(int a0, double a1, int a2, int a3, char a4, short a5, short a6, int a7, double a8, char a9, S9 *self){ S o = "h267"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o); return a6; }
static long long hf268(long long a0, NULLCArray a1, NULLCFuncPtr a2, char a3){ S o = "h268"; o += " "; rec(o, a0); o += " "; recI(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); return a0; }
static S33 hf269(S29 a0, S33 a1, short a2){ S o = "h269"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a1; }
static void hf270(double a0, float a1){ S o = "h270"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o);  }
static double hf271(float a0, double a1, float a2, double a3, float a4, double a5, float a6, float a7, float a8, float a9, float a10, float a11, double a12, double a13){ S o = "h271"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a3; }
static S13 hf272(int a0, S5 *self){ S o = "h272"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = 127; r.b = 127; return r; }
static S28 hf273(NULLCArray a0, S16 *self){ S o = "h273"; o += " "; recD(o, a0); o += " this"; rec(o, self); hrec(o); S28 r; memset(&r, 0, sizeof(r)); r.a = -34; return r; }
static S33 hf274(short a0, char a1, char a2, float a3, double a4, double a5, double a6, long long a7, S10 *self){ S o = "h274"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); S33 r; memset(&r, 0, sizeof(r)); r.a = 2147483647; r.b = 2147483647; r.c = 4108247.0f; r.d = 0.0f; return r; }
static void hf275(){ S o = "h275"; hrec(o);  }
static long long hf276(bool a0, double a1, short a2, S13* a3, int* a4, int* a5, short a6, bool a7, long long a8, double a9){ S o = "h276"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return 9223372036854775807LL; }
static char hf277(){ S o = "h277"; hrec(o); return 0; }
static S25 hf278(S29 a0, S8 a1, S7 a2, S7 a3, S13 a4, S25 a5, S28 a6, S17 a7){ S o = "h278"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a5; }
static float hf279(double a0, float a1, double a2, float a3, double a4, float a5, double a6, float a7, double a8, double a9, float a10, float a11, double a12){ S o = "h279"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a7; }
static double hf280(double a0, int* a1, int a2, S14 a3, long long a4, bool a5, long long a6, S17 a7, int a8, NULLCArray a9, S13* a10, S19 *self){ S o = "h280"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; recD(o, a9); o += " "; rec(o, a10); o += " this"; rec(o, self); hrec(o); return -3149056.0; }
static S9 hf281(NULLCRef a0, char a1, S10 a2, int* a3, float a4, S9 a5, S27 a6, short a7, S34 a8, float a9, S17 *self){ S o = "h281"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o); return a5; }
static void hf282(double a0){ S o = "h282"; o += " "; rec(o, a0); hrec(o);  }
static float hf283(float a0, S28 *self){ S o = "h283"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return a0; }
static void hf284(char a0, char a1, bool a2, char a3, short a4, bool a5, short a6, bool a7, int a8, short a9, int a10, long long a11, int a12){ S o = "h284"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o);  }
static int* hf285(char a0, NULLCFuncPtr a1, S9 a2, int* a3, S10 a4){ S o = "h285"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return a3; }
static S33 hf286(S16 a0, S16 a1, S32 a2, S16 a3, S33 a4){ S o = "h286"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return a4; }
static int hf287(){ S o = "h287"; hrec(o); return -2147483647; }
static float hf288(char a0){ S o = "h288"; o += " "; rec(o, a0); hrec(o); return 0.0f; }
static double hf289(double a0, S13 *self){ S o = "h289"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return a0; }
static bool hf290(bool a0, S2 *self){ S o = "h290"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return a0; }
static bool hf291(bool a0, short a1, bool a2, int a3, long long a4, char a5, int a6, int a7, int a8, bool a9, long long a10){ S o = "h291"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return 0; }
static S35 hf292(S6 a0){ S o = "h292"; o += " "; rec(o, a0); hrec(o); S35 r; memset(&r, 0, sizeof(r)); r.a = 10.5f; r.b = -1048375.0; return r; }
static S7 hf293(short a0, char a1, short a2, char a3, int a4, char a5, char a6, bool a7, char a8){ S o = "h293"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S7 r; memset(&r, 0, sizeof(r)); r.a = -31623.375f; r.b = 0.0f; return r; }
static S13 hf294(S13 a0){ S o = "h294"; o += " "; rec(o, a0); hrec(o); return a0; }
static short hf295(S25 a0, S27 a1, S5 a2, S18 a3, S34 a4, S8 a5, S36 a6){ S o = "h295"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return -1; }
static float hf296(S10 a0, short a1, S9 a2, short a3, short a4, float a5, S19 a6, S27* a7, int a8, S2 a9, double a10, short a11, int* a12){ S o = "h296"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return -2153834.0f; }
static NULLCArray hf297(NULLCArray a0, int a1){ S o = "h297"; o += " "; recI(o, a0); o += " "; rec(o, a1); hrec(o); return a0; }
static int hf298(int a0, S35 *self){ S o = "h298"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return a0; }
static S36 hf299(double a0, NULLCArray a1, NULLCArray a2, double a3, NULLCFuncPtr a4, S36 a5, char a6){ S o = "h299"; o += " "; rec(o, a0); o += " "; recI(o, a1); o += " "; recD(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static short hf300(double a0, S4 a1, S32* a2, float a3, TI a4, double a5, int* a6){ S o = "h300"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return -32768; }
static NULLCRef hf301(S11 a0, S25 a1, NULLCRef a2, S14 *self){ S o = "h301"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o); return a2; }
static void hf302(char a0, double a1, int a2, long long a3, float a4, double a5, float a6, double a7){ S o = "h302"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o);  }
static void hf303(S15 *self){ S o = "h303"; o += " this"; rec(o, self); hrec(o);  }
static int hf304(S28 a0, int a1, double a2, long long a3, NULLCAutoArray a4, S21 a5, double a6, short a7, S8 a8, S13 a9, float a10){ S o = "h304"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return a1; }
static int hf305(S4 a0, char a1, short a2, int a3, int a4, S18 a5, double a6, NULLCFuncPtr a7, double a8){ S o = "h305"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a3; }
static S19 hf306(long long a0, int a1, S19 a2, char a3, S29 a4, S32 *self){ S o = "h306"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " this"; rec(o, self); hrec(o); return a2; }
static S14 hf307(int a0, S32 *self){ S o = "h307"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); S14 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = 32767; r.c = -1; return r; }
static long long hf308(S18 a0, bool a1, S15 a2, char a3, long long a4, char a5){ S o = "h308"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return a4; }
static void hf309(long long a0, bool a1, double a2, double a3, char a4){ S o = "h309"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o);  }
static double hf310(double a0, S4 *self){ S o = "h310"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return a0; }
static S17 hf311(){ S o = "h311"; hrec(o); S17 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = -2052699.974609375; return r; }
static S32 hf312(short a0, short a1, char a2, float a3, short a4, char a5, long long a6, long long a7){ S o = "h312"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S32 r; memset(&r, 0, sizeof(r)); r.a = -1.0f; r.b = 116.125f; r.c = 0; r.d = -1; return r; }
static float hf313(S32 a0){ S o = "h313"; o += " "; rec(o, a0); hrec(o); return 31958.75f; }
static double hf314(int a0, double a1, char a2, float a3, bool a4, int a5, int a6, char a7, long long a8, double a9, char a10, double a11, long long a12, double a13){ S o = "h314"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a1; }
static float hf315(float a0, double a1, float a2, float a3, float a4, float a5, float a6, float a7, float a8){ S o = "h315"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a6; }
static long long hf316(char a0, long long a1, int a2, short a3, int a4, bool a5){ S o = "h316"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return -1LL; }
static S17 hf317(S32* a0, bool a1, S32* a2){ S o = "h317"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S17 r; memset(&r, 0, sizeof(r)); r.a = -856999637; r.b = 29325.5; return r; }
static S35 hf318(S17 a0, S35 a1){ S o = "h318"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static NULLCFuncPtr hf319(NULLCFuncPtr a0, TI a1, S36 a2, S5 a3, S18 a4, short a5, float a6, bool a7, double a8, long long a9, int a10){ S o = "h319"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return a0; }
static void hf320(float a0, long long a1, TI a2, short a3, float a4, short a5, bool a6, NULLCRef a7, short a8, char a9, long long a10, S6 *self){ S o = "h320"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " this"; rec(o, self); hrec(o);  }
static S9 hf321(bool a0, short a1, char a2, double a3, int a4, int a5, short a6, double a7, long long a8, float a9){ S o = "h321"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); S9 r; memset(&r, 0, sizeof(r)); r.a = 54.125f; r.b = 0; return r; }
static void hf322(int a0, short a1, short a2, long long a3, short a4, int a5, S21 *self){ S o = "h322"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " this"; rec(o, self); hrec(o);  }
static long long hf323(){ S o = "h323"; hrec(o); return 9223372036854775807LL; }
static S10 hf324(S27 a0, S2 a1, S14 a2, S8 a3, S10 a4, S4 a5, S11 a6, S13 a7){ S o = "h324"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a4; }
static S34 hf325(float a0, float a1, bool a2, float a3, double a4){ S o = "h325"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); S34 r; memset(&r, 0, sizeof(r)); r.a = 83732539227807.0; r.b = 9223372036854775807LL; return r; }
static int hf326(S18 a0, int a1){ S o = "h326"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static S18 hf327(S33 a0, long long a1, S27 a2, NULLCArray a3, float a4, NULLCArray a5, NULLCArray a6, S19* a7, long long a8, TI a9, char a10, S12 a11){ S o = "h327"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; recD(o, a3); o += " "; rec(o, a4); o += " "; recD(o, a5); o += " "; recI(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); S18 r; memset(&r, 0, sizeof(r)); r.a = -128; r.b = 0.0; r.c = -2147483647; return r; }
static int hf328(double a0, float a1, float a2){ S o = "h328"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return -1; }
static int hf329(int a0, long long a1, long long a2, S35 *self){ S o = "h329"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o); return a0; }
static bool hf330(bool a0, long long a1, bool a2){ S o = "h330"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static NULLCAutoArray hf331(S36 a0, NULLCArray a1, float a2, S29 a3, NULLCAutoArray a4, NULLCArray a5, S29 a6, S19 a7, short a8, short a9){ S o = "h331"; o += " "; rec(o, a0); o += " "; recD(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recI(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); return a4; }
static float hf332(float a0, float a1, double a2, double a3, double a4, float a5, double a6, float a7, float a8, double a9, float a10, double a11, S6 *self){ S o = "h332"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " this"; rec(o, self); hrec(o); return -1.0f; }
static short hf333(S12 *self){ S o = "h333"; o += " this"; rec(o, self); hrec(o); return -32768; }
static S27 hf334(){ S o = "h334"; hrec(o); S27 r; memset(&r, 0, sizeof(r)); r.a = -1134890.0f; r.b = -128; r.c = -32768; r.d = 0.0; return r; }
static float hf335(S2 a0, int* a1, NULLCArray a2, S21 a3, bool a4, S35* a5, long long a6, S10 *self){ S o = "h335"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recD(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " this"; rec(o, self); hrec(o); return 0.0f; }
static short hf336(NULLCArray a0, NULLCArray a1, long long a2, short a3, double a4, S36* a5){ S o = "h336"; o += " "; recD(o, a0); o += " "; recD(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); return a3; }
static S34 hf337(S16 a0, S21 a1, S11 a2, S9 a3, S19 a4, S35 a5, S29 a6, S7 a7){ S o = "h337"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); S34 r; memset(&r, 0, sizeof(r)); r.a = -165011.78515625; r.b = -1LL; return r; }
static short hf338(bool a0, char a1, short a2){ S o = "h338"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S13 hf339(float a0, double a1, bool a2, float a3, S9 *self){ S o = "h339"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " this"; rec(o, self); hrec(o); S13 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = 127; return r; }
static long long hf340(long long a0, int a1, long long a2, long long a3, short a4, bool a5, long long a6, short a7, long long a8, bool a9, S12 *self){ S o = "h340"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " this"; rec(o, self); hrec(o); return a6; }
static S17 hf341(int a0, int a1, long long a2, bool a3){ S o = "h341"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S17 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = -528026.7568359375; return r; }
static S12 hf342(long long a0, char a1, S32 a2, short a3, S10 a4, double a5, bool a6, S10 a7, S10 a8, int* a9, NULLCRef a10, int a11, short a12){ S o = "h342"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = 4021516953902439864LL; r.b = 2147483647; return r; }
static S8 hf343(char a0, bool a1, long long a2, char a3, long long a4, long long a5, char a6, double a7, float a8, int a9, char a10){ S o = "h343"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = 0.5f; r.b = -56.75f; r.c = 0.5f; return r; }
static S19 hf344(long long a0, char a1, int a2, char a3, char a4, short a5, bool a6, bool a7, bool a8){ S o = "h344"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S19 r; memset(&r, 0, sizeof(r)); r.a = 9223372036854775807LL; r.b = -1246257618LL; r.c = 9223372036854775807LL; r.d = 0LL; return r; }
static NULLCRef hf345(int a0, bool a1, S32* a2, double a3, NULLCRef a4, short a5, S12 a6, NULLCRef a7){ S o = "h345"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a7; }
static bool hf346(NULLCFuncPtr a0, short a1, int* a2, int a3, S17 a4){ S o = "h346"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); return 0; }
static S12 hf347(S3 a0, S11 a1, S13 a2, S27 a3, S1 a4, S17 a5, S15 a6, S2 a7, S6 *self){ S o = "h347"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " this"; rec(o, self); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = 5640862394522892100LL; r.b = -1; return r; }
static void hf348(int a0, bool a1, S11 *self){ S o = "h348"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o);  }
static void hf349(short a0){ S o = "h349"; o += " "; rec(o, a0); hrec(o);  }
static double hf350(NULLCAutoArray a0){ S o = "h350"; o += " "; rec(o, a0); hrec(o); return 988719014794268.0; }
static void hf351(NULLCArray a0, bool a1, double a2, char a3, NULLCAutoArray a4, NULLCArray a5, NULLCFuncPtr a6, NULLCFuncPtr a7, long long a8, double a9, TI a10, S11 a11){ S o = "h351"; o += " "; recI(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recI(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o);  }
static S8 hf352(S25 a0, S8 a1, S28 a2){ S o = "h352"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a1; }
static long long hf353(long long a0, char a1, bool a2, double a3, bool a4, double a5, int a6){ S o = "h353"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a0; }
static S11 hf354(float a0, double a1, double a2){ S o = "h354"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S11 r; memset(&r, 0, sizeof(r)); r.a = 8007472716478037350LL; r.b = -598466301051844.0; return r; }
static S17 hf355(char a0, bool a1){ S o = "h355"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S17 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = -736971441866453.0; return r; }
static bool hf356(short a0, short a1, int a2, char a3, bool a4, int a5, S33 *self){ S o = "h356"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " this"; rec(o, self); hrec(o); return 1; }
static bool hf357(float a0, double a1, double a2, double a3, float a4, float a5, float a6, float a7, double a8, float a9, double a10){ S o = "h357"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); hrec(o); return 1; }
static char hf358(short a0, bool a1, NULLCAutoArray a2, NULLCArray a3, NULLCRef a4){ S o = "h358"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; recI(o, a3); o += " "; rec(o, a4); hrec(o); return 127; }
static S8* hf359(char a0, S8* a1){ S o = "h359"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static S16 hf360(S5 a0, S34 a1, S16 a2, S36 a3, S2 a4, S2 a5, S9 a6, S27 a7){ S o = "h360"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a2; }
static short hf361(double a0, int a1, float a2, bool a3, double a4, bool a5, char a6, double a7, short a8, char a9, long long a10, double a11){ S o = "h361"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); hrec(o); return 32767; }
static S21 hf362(float a0, double a1, float a2, float a3, S33 a4, S36 a5){ S o = "h362"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); hrec(o); S21 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = 0; r.c = 0.0f; return r; }
static S7 hf363(short a0, short a1, int a2, long long a3){ S o = "h363"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S7 r; memset(&r, 0, sizeof(r)); r.a = -18708.3125f; r.b = 0.5f; return r; }
static S27 hf364(int a0, int a1, S9* a2){ S o = "h364"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S27 r; memset(&r, 0, sizeof(r)); r.a = -1.0f; r.b = -1; r.c = -32768; r.d = -18.5; return r; }
static short hf365(float a0, short a1){ S o = "h365"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static S16 hf366(){ S o = "h366"; hrec(o); S16 r; memset(&r, 0, sizeof(r)); r.a = -71518513756084.0; r.b = -1.0f; return r; }
static bool hf367(bool a0){ S o = "h367"; o += " "; rec(o, a0); hrec(o); return a0; }
static short hf368(S5 a0, S5 a1, short a2, NULLCArray a3, S21 a4, bool a5, long long a6, TI a7, double a8, NULLCArray a9, NULLCFuncPtr a10){ S o = "h368"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; recI(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; recD(o, a9); o += " "; rec(o, a10); hrec(o); return a2; }
static S36 hf369(float a0, long long a1, S19 a2, double a3, S21 a4, NULLCArray a5, long long a6, long long a7, S3 a8, S36 a9, NULLCAutoArray a10, S21 *self){ S o = "h369"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recD(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " this"; rec(o, self); hrec(o); return a9; }
static float hf370(double a0, bool a1, int a2, long long a3, double a4, short a5, double a6){ S o = "h370"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return -104.0f; }
static int hf371(double a0, int a1, bool a2, S10 *self){ S o = "h371"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o); return a1; }
static S32 hf372(float a0, float a1, float a2, double a3, float a4, float a5, double a6, double a7, double a8){ S o = "h372"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S32 r; memset(&r, 0, sizeof(r)); r.a = 0.0f; r.b = -19110.625f; r.c = -868572731; r.d = -2147483647; return r; }
static S13* hf373(int a0, S13* a1){ S o = "h373"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); return a1; }
static int hf374(int a0, double a1, NULLCArray a2, int a3, double a4, int a5, int a6, short a7, int a8, float a9, double a10, bool a11, int a12){ S o = "h374"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recD(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a5; }
static void hf375(short a0, NULLCAutoArray a1, float a2){ S o = "h375"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o);  }
static S12 hf376(float a0, float a1, double a2){ S o = "h376"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = 1448729974LL; r.b = 1; return r; }
static void hf377(double a0, double a1, S16 *self){ S o = "h377"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o);  }
static void hf378(short a0, long long a1, long long a2, int a3, short a4, bool a5, char a6){ S o = "h378"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o);  }
static char hf379(NULLCArray a0, S27 a1, double a2, float a3, S34 a4, float a5, int* a6){ S o = "h379"; o += " "; recD(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return 1; }
static S36 hf380(char a0, short a1, float a2, char a3, double a4, long long a5, short a6, char a7, long long a8, int a9){ S o = "h380"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); S36 r; memset(&r, 0, sizeof(r)); r.a = 32767; r.b = 32767; r.c = 0; r.d = 116.625f; r.e = 111.625f; return r; }
static S10 hf381(float a0, float a1){ S o = "h381"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S10 r; memset(&r, 0, sizeof(r)); r.a = 0.0; r.b = -685533769173836.0; return r; }
static void hf382(bool a0, char a1){ S o = "h382"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o);  }
static S1 hf383(NULLCAutoArray a0, char a1, double a2, int a3){ S o = "h383"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); S1 r; memset(&r, 0, sizeof(r)); r.a = -1; return r; }
static S15 hf384(S35* a0, S1* a1, S17 a2, S10* a3, short a4){ S o = "h384"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); S15 r; memset(&r, 0, sizeof(r)); r.a = 32767; return r; }
static short hf385(short a0, bool a1, char a2){ S o = "h385"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return -32768; }
static S3 hf386(S32 a0, S9 a1, TI a2, float a3, int a4){ S o = "h386"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); hrec(o); S3 r; memset(&r, 0, sizeof(r)); r.a = -1; r.b = 2147483647; r.c = 715342009; return r; }
static S10 hf387(float a0, float a1, float a2, double a3, double a4, float a5, float a6, double a7, double a8, double a9){ S o = "h387"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); hrec(o); S10 r; memset(&r, 0, sizeof(r)); r.a = 33786.75; r.b = -1147690.30078125; return r; }
static bool hf388(float a0, double a1, float a2, double a3, double a4, float a5, float a6){ S o = "h388"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return 0; }
static long long hf389(int* a0, S29* a1, S29 a2){ S o = "h389"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return 0LL; }
static void hf390(int* a0, S32 a1, float a2, char a3){ S o = "h390"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o);  }
static bool hf391(int a0, NULLCAutoArray a1, TI a2, bool a3, NULLCArray a4, short a5, TI a6, int a7, S10 a8, S12* a9, S16* a10, TI a11, S13* a12, S32 a13){ S o = "h391"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; recD(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return 0; }
static bool hf392(short a0, bool a1, S19 *self){ S o = "h392"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a1; }
static short hf393(bool a0, int a1, char a2, int a3, char a4, bool a5, bool a6, int a7, char a8, short a9, float a10, float a11, float a12){ S o = "h393"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o); return a9; }
static float hf394(bool a0, bool a1, float a2, char a3){ S o = "h394"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); hrec(o); return a2; }
static void hf395(int a0, bool a1){ S o = "h395"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o);  }
static float hf396(float a0, double a1, double a2, double a3, float a4, float a5, float a6, double a7){ S o = "h396"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a5; }
static NULLCFuncPtr hf397(S27 a0, S4* a1, NULLCArray a2, char a3, double a4, int a5, int* a6, NULLCFuncPtr a7){ S o = "h397"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; recI(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a7; }
static void hf398(long long a0, bool a1, bool a2, bool a3, short a4, long long a5, short a6, char a7, short a8, char a9, bool a10, char a11, bool a12){ S o = "h398"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); hrec(o);  }
static float hf399(float a0, float a1, float a2){ S o = "h399"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a1; }
static S29 hf400(NULLCArray a0){ S o = "h400"; o += " "; recD(o, a0); hrec(o); S29 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = -228074236LL; r.c = 32767; return r; }
static S12 hf401(S18 a0, NULLCArray a1, int a2, int a3, long long a4, int a5, NULLCRef a6, S36* a7, int a8, int a9, float a10, NULLCArray a11){ S o = "h401"; o += " "; rec(o, a0); o += " "; recD(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; recI(o, a11); hrec(o); S12 r; memset(&r, 0, sizeof(r)); r.a = -9223372036854775807LL; r.b = 1508060583; return r; }
static double hf402(double a0, S36 a1, double a2, S2 a3, S6 a4, long long a5, double a6){ S o = "h402"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a2; }
static void hf403(S8 a0, int a1, S19 *self){ S o = "h403"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o);  }
static S21 hf404(int a0, short a1, int a2, long long a3, int a4, long long a5, bool a6, int a7, long long a8){ S o = "h404"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); S21 r; memset(&r, 0, sizeof(r)); r.a = 1; r.b = -128; r.c = -23888.875f; return r; }
static S34 hf405(S34 a0, S18 a1, S3 a2){ S o = "h405"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a0; }
static S8 hf406(S33 *self){ S o = "h406"; o += " this"; rec(o, self); hrec(o); S8 r; memset(&r, 0, sizeof(r)); r.a = -45002.6875f; r.b = 0.5f; r.c = -1.0f; return r; }
static S18 hf407(S18 a0, S19 a1, S17 a2, S29 a3, S5 a4, S7 a5, S18 a6, S28 a7){ S o = "h407"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return a6; }
static double hf408(double a0, double a1, S13 *self){ S o = "h408"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " this"; rec(o, self); hrec(o); return a0; }
static float hf409(S4 a0, S13 *self){ S o = "h409"; o += " "; rec(o, a0); o += " this"; rec(o, self); hrec(o); return -2348461.0f; }
static S5 hf410(char a0, float a1){ S o = "h410"; o += " "; rec(o, a0); o += " "; rec(o, a1); hrec(o); S5 r; memset(&r, 0, sizeof(r)); r.a = 1124900996769100.0; return r; }
static S7 hf411(S35 a0, S28 a1, S6 a2, S11 a3, S15 a4, S17 a5, S1 a6){ S o = "h411"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); S7 r; memset(&r, 0, sizeof(r)); r.a = -27977.5f; r.b = -2634325.0f; return r; }
static long long hf412(long long a0, int a1, bool a2, long long a3, bool a4, bool a5, bool a6, char a7, char a8, int a9, int a10, int a11, int a12, bool a13){ S o = "h412"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a3; }
static short hf413(S7 a0, S7 a1, bool a2, short a3, short a4, char a5, double a6, int a7, NULLCAutoArray a8, NULLCArray a9, S16 a10){ S o = "h413"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; recD(o, a9); o += " "; rec(o, a10); hrec(o); return a4; }
static char hf414(char a0, char a1, char a2, short a3, double a4, float a5, double a6, int a7, short a8){ S o = "h414"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return 127; }
static S29 hf415(S28 *self){ S o = "h415"; o += " this"; rec(o, self); hrec(o); S29 r; memset(&r, 0, sizeof(r)); r.a = -2147483647; r.b = -1LL; r.c = 32767; return r; }
static float hf416(){ S o = "h416"; hrec(o); return 114.375f; }
static S21 hf417(){ S o = "h417"; hrec(o); S21 r; memset(&r, 0, sizeof(r)); r.a = 0; r.b = 0; r.c = 8515.0f; return r; }
static void hf418(float a0, double a1, double a2, S33 *self){ S o = "h418"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " this"; rec(o, self); hrec(o);  }
static int hf419(S7 a0, S33 a1, S9 a2, TI a3, bool a4, char a5, S27* a6, char a7){ S o = "h419"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); hrec(o); return 1; }
static S1 hf420(S1 a0){ S o = "h420"; o += " "; rec(o, a0); hrec(o); return a0; }
static S1 hf421(long long a0, long long a1, long long a2, long long a3, long long a4, S1 a5, S1 a6){ S o = "h421"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S1 hf422(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S1 a7, S1 a8){ S o = "h422"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S1 hf423(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S1 a14){ S o = "h423"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S1 hf424(S1 a0, int a1, S1 a2){ S o = "h424"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S2 hf425(S2 a0){ S o = "h425"; o += " "; rec(o, a0); hrec(o); return a0; }
static S2 hf426(long long a0, long long a1, long long a2, long long a3, long long a4, S2 a5, S2 a6){ S o = "h426"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S2 hf427(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S2 a7, S2 a8){ S o = "h427"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S2 hf428(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S2 a14){ S o = "h428"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S2 hf429(S2 a0, int a1, S2 a2){ S o = "h429"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S3 hf430(S3 a0){ S o = "h430"; o += " "; rec(o, a0); hrec(o); return a0; }
static S3 hf431(long long a0, long long a1, long long a2, long long a3, long long a4, S3 a5, S3 a6){ S o = "h431"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S3 hf432(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S3 a7, S3 a8){ S o = "h432"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S3 hf433(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S3 a14){ S o = "h433"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S3 hf434(S3 a0, int a1, S3 a2){ S o = "h434"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S4 hf435(S4 a0){ S o = "h435"; o += " "; rec(o, a0); hrec(o); return a0; }
static S4 hf436(long long a0, long long a1, long long a2, long long a3, long long a4, S4 a5, S4 a6){ S o = "h436"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S4 hf437(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S4 a7, S4 a8){ S o = "h437"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S4 hf438(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S4 a14){ S o = "h438"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S4 hf439(S4 a0, int a1, S4 a2){ S o = "h439"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S5 hf440(S5 a0){ S o = "h440"; o += " "; rec(o, a0); hrec(o); return a0; }
static S5 hf441(long long a0, long long a1, long long a2, long long a3, long long a4, S5 a5, S5 a6){ S o = "h441"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S5 hf442(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S5 a7, S5 a8){ S o = "h442"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S5 hf443(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S5 a14){ S o = "h443"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S5 hf444(S5 a0, int a1, S5 a2){ S o = "h444"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S6 hf445(S6 a0){ S o = "h445"; o += " "; rec(o, a0); hrec(o); return a0; }
static S6 hf446(long long a0, long long a1, long long a2, long long a3, long long a4, S6 a5, S6 a6){ S o = "h446"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S6 hf447(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S6 a7, S6 a8){ S o = "h447"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S6 hf448(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S6 a14){ S o = "h448"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S6 hf449(S6 a0, int a1, S6 a2){ S o = "h449"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S7 hf450(S7 a0){ S o = "h450"; o += " "; rec(o, a0); hrec(o); return a0; }
static S7 hf451(long long a0, long long a1, long long a2, long long a3, long long a4, S7 a5, S7 a6){ S o = "h451"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S7 hf452(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S7 a7, S7 a8){ S o = "h452"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S7 hf453(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S7 a14){ S o = "h453"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S7 hf454(S7 a0, int a1, S7 a2){ S o = "h454"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S8 hf455(S8 a0){ S o = "h455"; o += " "; rec(o, a0); hrec(o); return a0; }
static S8 hf456(long long a0, long long a1, long long a2, long long a3, long long a4, S8 a5, S8 a6){ S o = "h456"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S8 hf457(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S8 a7, S8 a8){ S o = "h457"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S8 hf458(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S8 a14){ S o = "h458"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S8 hf459(S8 a0, int a1, S8 a2){ S o = "h459"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S9 hf460(S9 a0){ S o = "h460"; o += " "; rec(o, a0); hrec(o); return a0; }
static S9 hf461(long long a0, long long a1, long long a2, long long a3, long long a4, S9 a5, S9 a6){ S o = "h461"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S9 hf462(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S9 a7, S9 a8){ S o = "h462"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S9 hf463(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S9 a14){ S o = "h463"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S9 hf464(S9 a0, int a1, S9 a2){ S o = "h464"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S10 hf465(S10 a0){ S o = "h465"; o += " "; rec(o, a0); hrec(o); return a0; }
static S10 hf466(long long a0, long long a1, long long a2, long long a3, long long a4, S10 a5, S10 a6){ S o = "h466"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S10 hf467(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S10 a7, S10 a8){ S o = "h467"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S10 hf468(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S10 a14){ S o = "h468"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S10 hf469(S10 a0, int a1, S10 a2){ S o = "h469"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S11 hf470(S11 a0){ S o = "h470"; o += " "; rec(o, a0); hrec(o); return a0; }
static S11 hf471(long long a0, long long a1, long long a2, long long a3, long long a4, S11 a5, S11 a6){ S o = "h471"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S11 hf472(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S11 a7, S11 a8){ S o = "h472"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S11 hf473(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S11 a14){ S o = "h473"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S11 hf474(S11 a0, int a1, S11 a2){ S o = "h474"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S12 hf475(S12 a0){ S o = "h475"; o += " "; rec(o, a0); hrec(o); return a0; }
static S12 hf476(long long a0, long long a1, long long a2, long long a3, long long a4, S12 a5, S12 a6){ S o = "h476"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S12 hf477(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S12 a7, S12 a8){ S o = "h477"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S12 hf478(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S12 a14){ S o = "h478"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S12 hf479(S12 a0, int a1, S12 a2){ S o = "h479"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S13 hf480(S13 a0){ S o = "h480"; o += " "; rec(o, a0); hrec(o); return a0; }
static S13 hf481(long long a0, long long a1, long long a2, long long a3, long long a4, S13 a5, S13 a6){ S o = "h481"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S13 hf482(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S13 a7, S13 a8){ S o = "h482"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S13 hf483(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S13 a14){ S o = "h483"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S13 hf484(S13 a0, int a1, S13 a2){ S o = "h484"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S14 hf485(S14 a0){ S o = "h485"; o += " "; rec(o, a0); hrec(o); return a0; }
static S14 hf486(long long a0, long long a1, long long a2, long long a3, long long a4, S14 a5, S14 a6){ S o = "h486"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S14 hf487(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S14 a7, S14 a8){ S o = "h487"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S14 hf488(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S14 a14){ S o = "h488"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S14 hf489(S14 a0, int a1, S14 a2){ S o = "h489"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S15 hf490(S15 a0){ S o = "h490"; o += " "; rec(o, a0); hrec(o); return a0; }
static S15 hf491(long long a0, long long a1, long long a2, long long a3, long long a4, S15 a5, S15 a6){ S o = "h491"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S15 hf492(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S15 a7, S15 a8){ S o = "h492"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S15 hf493(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S15 a14){ S o = "h493"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S15 hf494(S15 a0, int a1, S15 a2){ S o = "h494"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S16 hf495(S16 a0){ S o = "h495"; o += " "; rec(o, a0); hrec(o); return a0; }
static S16 hf496(long long a0, long long a1, long long a2, long long a3, long long a4, S16 a5, S16 a6){ S o = "h496"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S16 hf497(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S16 a7, S16 a8){ S o = "h497"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S16 hf498(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S16 a14){ S o = "h498"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S16 hf499(S16 a0, int a1, S16 a2){ S o = "h499"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S17 hf500(S17 a0){ S o = "h500"; o += " "; rec(o, a0); hrec(o); return a0; }
static S17 hf501(long long a0, long long a1, long long a2, long long a3, long long a4, S17 a5, S17 a6){ S o = "h501"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S17 hf502(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S17 a7, S17 a8){ S o = "h502"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S17 hf503(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S17 a14){ S o = "h503"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S17 hf504(S17 a0, int a1, S17 a2){ S o = "h504"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S18 hf505(S18 a0){ S o = "h505"; o += " "; rec(o, a0); hrec(o); return a0; }
static S18 hf506(long long a0, long long a1, long long a2, long long a3, long long a4, S18 a5, S18 a6){ S o = "h506"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S18 hf507(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S18 a7, S18 a8){ S o = "h507"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S18 hf508(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S18 a14){ S o = "h508"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S18 hf509(S18 a0, int a1, S18 a2){ S o = "h509"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S19 hf510(S19 a0){ S o = "h510"; o += " "; rec(o, a0); hrec(o); return a0; }
static S19 hf511(long long a0, long long a1, long long a2, long long a3, long long a4, S19 a5, S19 a6){ S o = "h511"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S19 hf512(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S19 a7, S19 a8){ S o = "h512"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S19 hf513(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S19 a14){ S o = "h513"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S19 hf514(S19 a0, int a1, S19 a2){ S o = "h514"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S21 hf515(S21 a0){ S o = "h515"; o += " "; rec(o, a0); hrec(o); return a0; }
static S21 hf516(long long a0, long long a1, long long a2, long long a3, long long a4, S21 a5, S21 a6){ S o = "h516"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S21 hf517(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S21 a7, S21 a8){ S o = "h517"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S21 hf518(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S21 a14){ S o = "h518"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S21 hf519(S21 a0, int a1, S21 a2){ S o = "h519"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S25 hf520(S25 a0){ S o = "h520"; o += " "; rec(o, a0); hrec(o); return a0; }
static S25 hf521(long long a0, long long a1, long long a2, long long a3, long long a4, S25 a5, S25 a6){ S o = "h521"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S25 hf522(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S25 a7, S25 a8){ S o = "h522"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S25 hf523(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S25 a14){ S o = "h523"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S25 hf524(S25 a0, int a1, S25 a2){ S o = "h524"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S27 hf525(S27 a0){ S o = "h525"; o += " "; rec(o, a0); hrec(o); return a0; }
static S27 hf526(long long a0, long long a1, long long a2, long long a3, long long a4, S27 a5, S27 a6){ S o = "h526"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S27 hf527(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S27 a7, S27 a8){ S o = "h527"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S27 hf528(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S27 a14){ S o = "h528"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S27 hf529(S27 a0, int a1, S27 a2){ S o = "h529"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S28 hf530(S28 a0){ S o = "h530"; o += " "; rec(o, a0); hrec(o); return a0; }
static S28 hf531(long long a0, long long a1, long long a2, long long a3, long long a4, S28 a5, S28 a6){ S o = "h531"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S28 hf532(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S28 a7, S28 a8){ S o = "h532"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S28 hf533(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S28 a14){ S o = "h533"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S28 hf534(S28 a0, int a1, S28 a2){ S o = "h534"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S29 hf535(S29 a0){ S o = "h535"; o += " "; rec(o, a0); hrec(o); return a0; }
static S29 hf536(long long a0, long long a1, long long a2, long long a3, long long a4, S29 a5, S29 a6){ S o = "h536"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S29 hf537(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S29 a7, S29 a8){ S o = "h537"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S29 hf538(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S29 a14){ S o = "h538"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S29 hf539(S29 a0, int a1, S29 a2){ S o = "h539"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S32 hf540(S32 a0){ S o = "h540"; o += " "; rec(o, a0); hrec(o); return a0; }
static S32 hf541(long long a0, long long a1, long long a2, long long a3, long long a4, S32 a5, S32 a6){ S o = "h541"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S32 hf542(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S32 a7, S32 a8){ S o = "h542"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S32 hf543(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S32 a14){ S o = "h543"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S32 hf544(S32 a0, int a1, S32 a2){ S o = "h544"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S33 hf545(S33 a0){ S o = "h545"; o += " "; rec(o, a0); hrec(o); return a0; }
static S33 hf546(long long a0, long long a1, long long a2, long long a3, long long a4, S33 a5, S33 a6){ S o = "h546"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S33 hf547(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S33 a7, S33 a8){ S o = "h547"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S33 hf548(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S33 a14){ S o = "h548"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S33 hf549(S33 a0, int a1, S33 a2){ S o = "h549"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S34 hf550(S34 a0){ S o = "h550"; o += " "; rec(o, a0); hrec(o); return a0; }
static S34 hf551(long long a0, long long a1, long long a2, long long a3, long long a4, S34 a5, S34 a6){ S o = "h551"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S34 hf552(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S34 a7, S34 a8){ S o = "h552"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S34 hf553(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S34 a14){ S o = "h553"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S34 hf554(S34 a0, int a1, S34 a2){ S o = "h554"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S35 hf555(S35 a0){ S o = "h555"; o += " "; rec(o, a0); hrec(o); return a0; }
static S35 hf556(long long a0, long long a1, long long a2, long long a3, long long a4, S35 a5, S35 a6){ S o = "h556"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S35 hf557(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S35 a7, S35 a8){ S o = "h557"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S35 hf558(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S35 a14){ S o = "h558"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S35 hf559(S35 a0, int a1, S35 a2){ S o = "h559"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static S36 hf560(S36 a0){ S o = "h560"; o += " "; rec(o, a0); hrec(o); return a0; }
static S36 hf561(long long a0, long long a1, long long a2, long long a3, long long a4, S36 a5, S36 a6){ S o = "h561"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a5; }
static S36 hf562(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S36 a7, S36 a8){ S o = "h562"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); hrec(o); return a7; }
static S36 hf563(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S36 a14){ S o = "h563"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); o += " "; rec(o, a14); hrec(o); return a14; }
static S36 hf564(S36 a0, int a1, S36 a2){ S o = "h564"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); hrec(o); return a2; }
static NULLCRef hf565(NULLCRef a0){ S o = "h565"; o += " "; rec(o, a0); hrec(o); return a0; }
static NULLCRef hf566(long long a0, long long a1, long long a2, long long a3, long long a4, NULLCRef a5, NULLCRef a6){ S o = "h566"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a6; }
static NULLCRef hf567(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long long a8, long long a9, long long a10, long long a11, NULLCRef a12, NULLCRef a13){ S o = "h567"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a12; }
static NULLCArray hf568(NULLCArray a0){ S o = "h568"; o += " "; recI(o, a0); hrec(o); return a0; }
static NULLCArray hf569(long long a0, long long a1, long long a2, long long a3, long long a4, NULLCArray a5, NULLCArray a6){ S o = "h569"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; recI(o, a5); o += " "; recI(o, a6); hrec(o); return a6; }
static NULLCArray hf570(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long long a8, long long a9, long long a10, long long a11, NULLCArray a12, NULLCArray a13){ S o = "h570"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; recI(o, a12); o += " "; recI(o, a13); hrec(o); return a12; }
static NULLCFuncPtr hf571(NULLCFuncPtr a0){ S o = "h571"; o += " "; rec(o, a0); hrec(o); return a0; }
static NULLCFuncPtr hf572(long long a0, long long a1, long long a2, long long a3, long long a4, NULLCFuncPtr a5, NULLCFuncPtr a6){ S o = "h572"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a6; }
static NULLCFuncPtr hf573(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long long a8, long long a9, long long a10, long long a11, NULLCFuncPtr a12, NULLCFuncPtr a13){ S o = "h573"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a12; }
static NULLCAutoArray hf574(NULLCAutoArray a0){ S o = "h574"; o += " "; rec(o, a0); hrec(o); return a0; }
static NULLCAutoArray hf575(long long a0, long long a1, long long a2, long long a3, long long a4, NULLCAutoArray a5, NULLCAutoArray a6){ S o = "h575"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a6; }
static NULLCAutoArray hf576(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long long a8, long long a9, long long a10, long long a11, NULLCAutoArray a12, NULLCAutoArray a13){ S o = "h576"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a12; }
static TI hf577(TI a0){ S o = "h577"; o += " "; rec(o, a0); hrec(o); return a0; }
static TI hf578(long long a0, long long a1, long long a2, long long a3, long long a4, TI a5, TI a6){ S o = "h578"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a6; }
static TI hf579(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long long a8, long long a9, long long a10, long long a11, TI a12, TI a13){ S o = "h579"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a12; }
static int* hf580(int* a0){ S o = "h580"; o += " "; rec(o, a0); hrec(o); return a0; }
static int* hf581(long long a0, long long a1, long long a2, long long a3, long long a4, int* a5, int* a6){ S o = "h581"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); hrec(o); return a6; }
static int* hf582(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long long a8, long long a9, long long a10, long long a11, int* a12, int* a13){ S o = "h582"; o += " "; rec(o, a0); o += " "; rec(o, a1); o += " "; rec(o, a2); o += " "; rec(o, a3); o += " "; rec(o, a4); o += " "; rec(o, a5); o += " "; rec(o, a6); o += " "; rec(o, a7); o += " "; rec(o, a8); o += " "; rec(o, a9); o += " "; rec(o, a10); o += " "; rec(o, a11); o += " "; rec(o, a12); o += " "; rec(o, a13); hrec(o); return a12; }
static bool interopBind(S &err)
{
	I(nullcBindModuleFunction("hi", (void(*)())hf0, "S1::h0", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf1, "h1", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf2, "h2", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf3, "h3", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf4, "h4", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf5, "h5", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf6, "S28::h6", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf7, "S11::h7", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf8, "h8", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf9, "h9", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf10, "h10", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf11, "h11", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf12, "h12", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf13, "h13", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf14, "S35::h14", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf15, "h15", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf16, "h16", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf17, "h17", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf18, "h18", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf19, "h19", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf20, "S15::h20", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf21, "h21", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf22, "h22", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf23, "h23", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf24, "h24", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf25, "h25", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf26, "h26", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf27, "h27", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf28, "S10::h28", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf29, "h29", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf30, "h30", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf31, "h31", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf32, "h32", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf33, "h33", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf34, "h34", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf35, "h35", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf36, "h36", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf37, "h37", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf38, "h38", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf39, "h39", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf40, "h40", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf41, "h41", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf42, "S19::h42", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf43, "h43", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf44, "h44", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf45, "h45", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf46, "h46", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf47, "h47", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf48, "h48", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf49, "h49", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf50, "h50", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf51, "h51", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf52, "h52", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf53, "h53", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf54, "h54", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf55, "h55", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf56, "S16::h56", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf57, "S16::h57", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf58, "h58", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf59, "h59", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf60, "h60", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf61, "h61", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf62, "h62", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf63, "h63", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf64, "h64", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf65, "h65", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf66, "S8::h66", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf67, "h67", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf68, "h68", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf69, "h69", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf70, "h70", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf71, "h71", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf72, "h72", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf73, "S33::h73", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf74, "S14::h74", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf75, "h75", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf76, "h76", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf77, "S34::h77", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf78, "h78", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf79, "h79", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf80, "h80", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf81, "h81", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf82, "h82", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf83, "h83", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf84, "h84", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf85, "h85", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf86, "h86", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf87, "h87", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf88, "S9::h88", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf89, "h89", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf90, "S36::h90", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf91, "S6::h91", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf92, "h92", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf93, "h93", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf94, "h94", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf95, "h95", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf96, "h96", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf97, "S34::h97", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf98, "h98", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf99, "h99", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf100, "h100", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf101, "h101", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf102, "h102", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf103, "h103", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf104, "h104", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf105, "h105", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf106, "h106", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf107, "h107", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf108, "S9::h108", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf109, "h109", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf110, "h110", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf111, "h111", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf112, "h112", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf113, "h113", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf114, "h114", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf115, "h115", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf116, "S8::h116", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf117, "h117", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf118, "S35::h118", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf119, "h119", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf120, "h120", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf121, "h121", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf122, "h122", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf123, "h123", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf124, "S21::h124", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf125, "h125", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf126, "h126", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf127, "h127", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf128, "h128", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf129, "S19::h129", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf130, "S8::h130", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf131, "h131", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf132, "h132", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf133, "h133", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf134, "h134", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf135, "h135", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf136, "h136", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf137, "h137", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf138, "h138", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf139, "h139", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf140, "h140", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf141, "S25::h141", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf142, "h142", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf143, "h143", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf144, "h144", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf145, "h145", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf146, "h146", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf147, "h147", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf148, "h148", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf149, "h149", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf150, "h150", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf151, "h151", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf152, "h152", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf153, "S12::h153", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf154, "h154", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf155, "h155", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf156, "h156", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf157, "S36::h157", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf158, "S34::h158", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf159, "h159", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf160, "h160", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf161, "h161", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf162, "S7::h162", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf163, "h163", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf164, "h164", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf165, "S10::h165", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf166, "h166", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf167, "h167", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf168, "h168", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf169, "S11::h169", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf170, "S13::h170", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf171, "h171", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf172, "h172", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf173, "h173", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf174, "h174", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf175, "h175", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf176, "h176", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf177, "h177", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf178, "h178", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf179, "h179", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf180, "h180", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf181, "S15::h181", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf182, "h182", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf183, "h183", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf184, "h184", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf185, "S34::h185", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf186, "S4::h186", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf187, "h187", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf188, "h188", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf189, "h189", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf190, "h190", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf191, "h191", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf192, "h192", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf193, "h193", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf194, "h194", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf195, "h195", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf196, "h196", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf197, "h197", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf198, "h198", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf199, "h199", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf200, "h200", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf201, "h201", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf202, "S25::h202", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf203, "h203", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf204, "h204", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf205, "S8::h205", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf206, "S6::h206", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf207, "h207", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf208, "h208", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf209, "h209", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf210, "h210", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf211, "S4::h211", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf212, "h212", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf213, "h213", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf214, "S27::h214", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf215, "h215", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf216, "h216", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf217, "S34::h217", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf218, "h218", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf219, "h219", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf220, "h220", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf221, "h221", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf222, "h222", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf223, "h223", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf224, "h224", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf225, "h225", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf226, "h226", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf227, "h227", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf228, "h228", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf229, "S10::h229", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf230, "h230", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf231, "S18::h231", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf232, "h232", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf233, "S13::h233", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf234, "h234", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf235, "h235", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf236, "S3::h236", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf237, "h237", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf238, "h238", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf239, "h239", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf240, "S9::h240", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf241, "S14::h241", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf242, "S3::h242", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf243, "h243", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf244, "h244", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf245, "h245", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf246, "h246", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf247, "h247", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf248, "S25::h248", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf249, "S12::h249", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf250, "h250", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf251, "h251", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf252, "h252", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf253, "h253", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf254, "h254", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf255, "S8::h255", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf256, "h256", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf257, "h257", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf258, "h258", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf259, "S27::h259", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf260, "h260", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf261, "h261", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf262, "h262", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf263, "h263", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf264, "h264", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf265, "S1::h265", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf266, "h266", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf267, "S9::h267", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf268, "h268", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf269, "h269", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf270, "h270", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf271, "h271", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf272, "S5::h272", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf273, "S16::h273", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf274, "S10::h274", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf275, "h275", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf276, "h276", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf277, "h277", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf278, "h278", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf279, "h279", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf280, "S19::h280", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf281, "S17::h281", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf282, "h282", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf283, "S28::h283", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf284, "h284", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf285, "h285", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf286, "h286", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf287, "h287", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf288, "h288", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf289, "S13::h289", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf290, "S2::h290", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf291, "h291", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf292, "h292", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf293, "h293", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf294, "h294", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf295, "h295", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf296, "h296", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf297, "h297", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf298, "S35::h298", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf299, "h299", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf300, "h300", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf301, "S14::h301", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf302, "h302", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf303, "S15::h303", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf304, "h304", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf305, "h305", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf306, "S32::h306", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf307, "S32::h307", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf308, "h308", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf309, "h309", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf310, "S4::h310", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf311, "h311", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf312, "h312", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf313, "h313", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf314, "h314", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf315, "h315", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf316, "h316", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf317, "h317", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf318, "h318", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf319, "h319", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf320, "S6::h320", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf321, "h321", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf322, "S21::h322", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf323, "h323", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf324, "h324", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf325, "h325", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf326, "h326", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf327, "h327", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf328, "h328", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf329, "S35::h329", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf330, "h330", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf331, "h331", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf332, "S6::h332", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf333, "S12::h333", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf334, "h334", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf335, "S10::h335", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf336, "h336", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf337, "h337", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf338, "h338", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf339, "S9::h339", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf340, "S12::h340", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf341, "h341", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf342, "h342", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf343, "h343", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf344, "h344", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf345, "h345", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf346, "h346", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf347, "S6::h347", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf348, "S11::h348", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf349, "h349", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf350, "h350", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf351, "h351", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf352, "h352", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf353, "h353", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf354, "h354", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf355, "h355", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf356, "S33::h356", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf357, "h357", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf358, "h358", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf359, "h359", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf360, "h360", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf361, "h361", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf362, "h362", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf363, "h363", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf364, "h364", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf365, "h365", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf366, "h366", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf367, "h367", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf368, "h368", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf369, "S21::h369", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf370, "h370", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf371, "S10::h371", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf372, "h372", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf373, "h373", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf374, "h374", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf375, "h375", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf376, "h376", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf377, "S16::h377", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf378, "h378", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf379, "h379", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf380, "h380", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf381, "h381", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf382, "h382", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf383, "h383", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf384, "h384", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf385, "h385", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf386, "h386", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf387, "h387", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf388, "h388", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf389, "h389", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf390, "h390", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf391, "h391", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf392, "S19::h392", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf393, "h393", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf394, "h394", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf395, "h395", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf396, "h396", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf397, "h397", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf398, "h398", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf399, "h399", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf400, "h400", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf401, "h401", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf402, "h402", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf403, "S19::h403", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf404, "h404", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf405, "h405", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf406, "S33::h406", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf407, "h407", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf408, "S13::h408", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf409, "S13::h409", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf410, "h410", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf411, "h411", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf412, "h412", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf413, "h413", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf414, "h414", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf415, "S28::h415", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf416, "h416", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf417, "h417", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf418, "S33::h418", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf419, "h419", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf420, "h420", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf421, "h421", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf422, "h422", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf423, "h423", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf424, "h424", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf425, "h425", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf426, "h426", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf427, "h427", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf428, "h428", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf429, "h429", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf430, "h430", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf431, "h431", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf432, "h432", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf433, "h433", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf434, "h434", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf435, "h435", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf436, "h436", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf437, "h437", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf438, "h438", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf439, "h439", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf440, "h440", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf441, "h441", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf442, "h442", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf443, "h443", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf444, "h444", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf445, "h445", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf446, "h446", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf447, "h447", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf448, "h448", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf449, "h449", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf450, "h450", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf451, "h451", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf452, "h452", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf453, "h453", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf454, "h454", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf455, "h455", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf456, "h456", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf457, "h457", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf458, "h458", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf459, "h459", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf460, "h460", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf461, "h461", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf462, "h462", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf463, "h463", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf464, "h464", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf465, "h465", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf466, "h466", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf467, "h467", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf468, "h468", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf469, "h469", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf470, "h470", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf471, "h471", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf472, "h472", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf473, "h473", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf474, "h474", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf475, "h475", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf476, "h476", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf477, "h477", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf478, "h478", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf479, "h479", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf480, "h480", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf481, "h481", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf482, "h482", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf483, "h483", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf484, "h484", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf485, "h485", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf486, "h486", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf487, "h487", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf488, "h488", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf489, "h489", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf490, "h490", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf491, "h491", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf492, "h492", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf493, "h493", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf494, "h494", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf495, "h495", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf496, "h496", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf497, "h497", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf498, "h498", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf499, "h499", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf500, "h500", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf501, "h501", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf502, "h502", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf503, "h503", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf504, "h504", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf505, "h505", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf506, "h506", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf507, "h507", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf508, "h508", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf509, "h509", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf510, "h510", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf511, "h511", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf512, "h512", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf513, "h513", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf514, "h514", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf515, "h515", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf516, "h516", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf517, "h517", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf518, "h518", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf519, "h519", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf520, "h520", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf521, "h521", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf522, "h522", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf523, "h523", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf524, "h524", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf525, "h525", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf526, "h526", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf527, "h527", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf528, "h528", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf529, "h529", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf530, "h530", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf531, "h531", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf532, "h532", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf533, "h533", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf534, "h534", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf535, "h535", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf536, "h536", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf537, "h537", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf538, "h538", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf539, "h539", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf540, "h540", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf541, "h541", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf542, "h542", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf543, "h543", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf544, "h544", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf545, "h545", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf546, "h546", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf547, "h547", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf548, "h548", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf549, "h549", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf550, "h550", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf551, "h551", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf552, "h552", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf553, "h553", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf554, "h554", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf555, "h555", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf556, "h556", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf557, "h557", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf558, "h558", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf559, "h559", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf560, "h560", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf561, "h561", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf562, "h562", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf563, "h563", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf564, "h564", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf565, "h565", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf566, "h566", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf567, "h567", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf568, "h568", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf569, "h569", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf570, "h570", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf571, "h571", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf572, "h572", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf573, "h573", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf574, "h574", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf575, "h575", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf576, "h576", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf577, "h577", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf578, "h578", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf579, "h579", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf580, "h580", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf581, "h581", 0));
	I(nullcBindModuleFunction("hi", (void(*)())hf582, "h582", 0));
	I(nullcBindModuleFunctionHelper("hw", hf0, "S1::h0", 0));
	I(nullcBindModuleFunctionHelper("hw", hf1, "h1", 0));
	I(nullcBindModuleFunctionHelper("hw", hf2, "h2", 0));
	I(nullcBindModuleFunctionHelper("hw", hf3, "h3", 0));
	I(nullcBindModuleFunctionHelper("hw", hf4, "h4", 0));
	I(nullcBindModuleFunctionHelper("hw", hf5, "h5", 0));
	I(nullcBindModuleFunctionHelper("hw", hf6, "S28::h6", 0));
	I(nullcBindModuleFunctionHelper("hw", hf7, "S11::h7", 0));
	I(nullcBindModuleFunctionHelper("hw", hf8, "h8", 0));
	I(nullcBindModuleFunctionHelper("hw", hf9, "h9", 0));
	I(nullcBindModuleFunctionHelper("hw", hf10, "h10", 0));
	I(nullcBindModuleFunctionHelper("hw", hf11, "h11", 0));
	I(nullcBindModuleFunctionHelper("hw", hf12, "h12", 0));
	I(nullcBindModuleFunctionHelper("hw", hf13, "h13", 0));
	I(nullcBindModuleFunctionHelper("hw", hf14, "S35::h14", 0));
	I(nullcBindModuleFunctionHelper("hw", hf15, "h15", 0));
	I(nullcBindModuleFunctionHelper("hw", hf16, "h16", 0));
	I(nullcBindModuleFunctionHelper("hw", hf17, "h17", 0));
	I(nullcBindModuleFunctionHelper("hw", hf18, "h18", 0));
	I(nullcBindModuleFunctionHelper("hw", hf19, "h19", 0));
	I(nullcBindModuleFunctionHelper("hw", hf20, "S15::h20", 0));
	I(nullcBindModuleFunctionHelper("hw", hf21, "h21", 0));
	I(nullcBindModuleFunctionHelper("hw", hf22, "h22", 0));
	I(nullcBindModuleFunctionHelper("hw", hf23, "h23", 0));
	I(nullcBindModuleFunctionHelper("hw", hf24, "h24", 0));
	I(nullcBindModuleFunctionHelper("hw", hf25, "h25", 0));
	I(nullcBindModuleFunctionHelper("hw", hf26, "h26", 0));
	I(nullcBindModuleFunctionHelper("hw", hf27, "h27", 0));
	I(nullcBindModuleFunctionHelper("hw", hf28, "S10::h28", 0));
	I(nullcBindModuleFunctionHelper("hw", hf29, "h29", 0));
	I(nullcBindModuleFunctionHelper("hw", hf30, "h30", 0));
	I(nullcBindModuleFunctionHelper("hw", hf31, "h31", 0));
	I(nullcBindModuleFunctionHelper("hw", hf32, "h32", 0));
	I(nullcBindModuleFunctionHelper("hw", hf33, "h33", 0));
	I(nullcBindModuleFunctionHelper("hw", hf34, "h34", 0));
	I(nullcBindModuleFunctionHelper("hw", hf35, "h35", 0));
	I(nullcBindModuleFunctionHelper("hw", hf36, "h36", 0));
	I(nullcBindModuleFunctionHelper("hw", hf37, "h37", 0));
	I(nullcBindModuleFunctionHelper("hw", hf38, "h38", 0));
	I(nullcBindModuleFunctionHelper("hw", hf39, "h39", 0));
	I(nullcBindModuleFunctionHelper("hw", hf40, "h40", 0));
	I(nullcBindModuleFunctionHelper("hw", hf41, "h41", 0));
	I(nullcBindModuleFunctionHelper("hw", hf42, "S19::h42", 0));
	I(nullcBindModuleFunctionHelper("hw", hf43, "h43", 0));
	I(nullcBindModuleFunctionHelper("hw", hf44, "h44", 0));
	I(nullcBindModuleFunctionHelper("hw", hf45, "h45", 0));
	I(nullcBindModuleFunctionHelper("hw", hf46, "h46", 0));
	I(nullcBindModuleFunctionHelper("hw", hf47, "h47", 0));
	I(nullcBindModuleFunctionHelper("hw", hf48, "h48", 0));
	I(nullcBindModuleFunctionHelper("hw", hf49, "h49", 0));
	I(nullcBindModuleFunctionHelper("hw", hf50, "h50", 0));
	I(nullcBindModuleFunctionHelper("hw", hf51, "h51", 0));
	I(nullcBindModuleFunctionHelper("hw", hf52, "h52", 0));
	I(nullcBindModuleFunctionHelper("hw", hf53, "h53", 0));
	I(nullcBindModuleFunctionHelper("hw", hf54, "h54", 0));
	I(nullcBindModuleFunctionHelper("hw", hf55, "h55", 0));
	I(nullcBindModuleFunctionHelper("hw", hf56, "S16::h56", 0));
	I(nullcBindModuleFunctionHelper("hw", hf57, "S16::h57", 0));
	I(nullcBindModuleFunctionHelper("hw", hf58, "h58", 0));
	I(nullcBindModuleFunctionHelper("hw", hf59, "h59", 0));
	I(nullcBindModuleFunctionHelper("hw", hf60, "h60", 0));
	I(nullcBindModuleFunctionHelper("hw", hf61, "h61", 0));
	I(nullcBindModuleFunctionHelper("hw", hf62, "h62", 0));
	I(nullcBindModuleFunctionHelper("hw", hf63, "h63", 0));
	I(nullcBindModuleFunctionHelper("hw", hf64, "h64", 0));
	I(nullcBindModuleFunctionHelper("hw", hf65, "h65", 0));
	I(nullcBindModuleFunctionHelper("hw", hf66, "S8::h66", 0));
	I(nullcBindModuleFunctionHelper("hw", hf67, "h67", 0));
	I(nullcBindModuleFunctionHelper("hw", hf68, "h68", 0));
	I(nullcBindModuleFunctionHelper("hw", hf69, "h69", 0));
	I(nullcBindModuleFunctionHelper("hw", hf70, "h70", 0));
	I(nullcBindModuleFunctionHelper("hw", hf71, "h71", 0));
	I(nullcBindModuleFunctionHelper("hw", hf72, "h72", 0));
	I(nullcBindModuleFunctionHelper("hw", hf73, "S33::h73", 0));
	I(nullcBindModuleFunctionHelper("hw", hf74, "S14::h74", 0));
	I(nullcBindModuleFunctionHelper("hw", hf75, "h75", 0));
	I(nullcBindModuleFunctionHelper("hw", hf76, "h76", 0));
	I(nullcBindModuleFunctionHelper("hw", hf77, "S34::h77", 0));
	I(nullcBindModuleFunctionHelper("hw", hf78, "h78", 0));
	I(nullcBindModuleFunctionHelper("hw", hf79, "h79", 0));
	I(nullcBindModuleFunctionHelper("hw", hf80, "h80", 0));
	I(nullcBindModuleFunctionHelper("hw", hf81, "h81", 0));
	I(nullcBindModuleFunctionHelper("hw", hf82, "h82", 0));
	I(nullcBindModuleFunctionHelper("hw", hf83, "h83", 0));
	I(nullcBindModuleFunctionHelper("hw", hf84, "h84", 0));
	I(nullcBindModuleFunctionHelper("hw", hf85, "h85", 0));
	I(nullcBindModuleFunctionHelper("hw", hf86, "h86", 0));
	I(nullcBindModuleFunctionHelper("hw", hf87, "h87", 0));
	I(nullcBindModuleFunctionHelper("hw", hf88, "S9::h88", 0));
	I(nullcBindModuleFunctionHelper("hw", hf89, "h89", 0));
	I(nullcBindModuleFunctionHelper("hw", hf90, "S36::h90", 0));
	I(nullcBindModuleFunctionHelper("hw", hf91, "S6::h91", 0));
	I(nullcBindModuleFunctionHelper("hw", hf92, "h92", 0));
	I(nullcBindModuleFunctionHelper("hw", hf93, "h93", 0));
	I(nullcBindModuleFunctionHelper("hw", hf94, "h94", 0));
	I(nullcBindModuleFunctionHelper("hw", hf95, "h95", 0));
	I(nullcBindModuleFunctionHelper("hw", hf96, "h96", 0));
	I(nullcBindModuleFunctionHelper("hw", hf97, "S34::h97", 0));
	I(nullcBindModuleFunctionHelper("hw", hf98, "h98", 0));
	I(nullcBindModuleFunctionHelper("hw", hf99, "h99", 0));
	I(nullcBindModuleFunctionHelper("hw", hf100, "h100", 0));
	I(nullcBindModuleFunctionHelper("hw", hf101, "h101", 0));
	I(nullcBindModuleFunctionHelper("hw", hf102, "h102", 0));
	I(nullcBindModuleFunctionHelper("hw", hf103, "h103", 0));
	I(nullcBindModuleFunctionHelper("hw", hf104, "h104", 0));
	I(nullcBindModuleFunctionHelper("hw", hf105, "h105", 0));
	I(nullcBindModuleFunctionHelper("hw", hf106, "h106", 0));
	I(nullcBindModuleFunctionHelper("hw", hf107, "h107", 0));
	I(nullcBindModuleFunctionHelper("hw", hf108, "S9::h108", 0));
	I(nullcBindModuleFunctionHelper("hw", hf109, "h109", 0));
	I(nullcBindModuleFunctionHelper("hw", hf110, "h110", 0));
	I(nullcBindModuleFunctionHelper("hw", hf111, "h111", 0));
	I(nullcBindModuleFunctionHelper("hw", hf112, "h112", 0));
	I(nullcBindModuleFunctionHelper("hw", hf113, "h113", 0));
	I(nullcBindModuleFunctionHelper("hw", hf114, "h114", 0));
	I(nullcBindModuleFunctionHelper("hw", hf115, "h115", 0));
	I(nullcBindModuleFunctionHelper("hw", hf116, "S8::h116", 0));
	I(nullcBindModuleFunctionHelper("hw", hf117, "h117", 0));
	I(nullcBindModuleFunctionHelper("hw", hf118, "S35::h118", 0));
	I(nullcBindModuleFunctionHelper("hw", hf119, "h119", 0));
	I(nullcBindModuleFunctionHelper("hw", hf120, "h120", 0));
	I(nullcBindModuleFunctionHelper("hw", hf121, "h121", 0));
	I(nullcBindModuleFunctionHelper("hw", hf122, "h122", 0));
	I(nullcBindModuleFunctionHelper("hw", hf123, "h123", 0));
	I(nullcBindModuleFunctionHelper("hw", hf124, "S21::h124", 0));
	I(nullcBindModuleFunctionHelper("hw", hf125, "h125", 0));
	I(nullcBindModuleFunctionHelper("hw", hf126, "h126", 0));
	I(nullcBindModuleFunctionHelper("hw", hf127, "h127", 0));
	I(nullcBindModuleFunctionHelper("hw", hf128, "h128", 0));
	I(nullcBindModuleFunctionHelper("hw", hf129, "S19::h129", 0));
	I(nullcBindModuleFunctionHelper("hw", hf130, "S8::h130", 0));
	I(nullcBindModuleFunctionHelper("hw", hf131, "h131", 0));
	I(nullcBindModuleFunctionHelper("hw", hf132, "h132", 0));
	I(nullcBindModuleFunctionHelper("hw", hf133, "h133", 0));
	I(nullcBindModuleFunctionHelper("hw", hf134, "h134", 0));
	I(nullcBindModuleFunctionHelper("hw", hf135, "h135", 0));
	I(nullcBindModuleFunctionHelper("hw", hf136, "h136", 0));
	I(nullcBindModuleFunctionHelper("hw", hf137, "h137", 0));
	I(nullcBindModuleFunctionHelper("hw", hf138, "h138", 0));
	I(nullcBindModuleFunctionHelper("hw", hf139, "h139", 0));
	I(nullcBindModuleFunctionHelper("hw", hf140, "h140", 0));
	I(nullcBindModuleFunctionHelper("hw", hf141, "S25::h141", 0));
	I(nullcBindModuleFunctionHelper("hw", hf142, "h142", 0));
	I(nullcBindModuleFunctionHelper("hw", hf143, "h143", 0));
	I(nullcBindModuleFunctionHelper("hw", hf144, "h144", 0));
	I(nullcBindModuleFunctionHelper("hw", hf145, "h145", 0));
	I(nullcBindModuleFunctionHelper("hw", hf146, "h146", 0));
	I(nullcBindModuleFunctionHelper("hw", hf147, "h147", 0));
	I(nullcBindModuleFunctionHelper("hw", hf148, "h148", 0));
	I(nullcBindModuleFunctionHelper("hw", hf149, "h149", 0));
	I(nullcBindModuleFunctionHelper("hw", hf150, "h150", 0));
	I(nullcBindModuleFunctionHelper("hw", hf151, "h151", 0));
	I(nullcBindModuleFunctionHelper("hw", hf152, "h152", 0));
	I(nullcBindModuleFunctionHelper("hw", hf153, "S12::h153", 0));
	I(nullcBindModuleFunctionHelper("hw", hf154, "h154", 0));
	I(nullcBindModuleFunctionHelper("hw", hf155, "h155", 0));
	I(nullcBindModuleFunctionHelper("hw", hf156, "h156", 0));
	I(nullcBindModuleFunctionHelper("hw", hf157, "S36::h157", 0));
	I(nullcBindModuleFunctionHelper("hw", hf158, "S34::h158", 0));
	I(nullcBindModuleFunctionHelper("hw", hf159, "h159", 0));
	I(nullcBindModuleFunctionHelper("hw", hf160, "h160", 0));
	I(nullcBindModuleFunctionHelper("hw", hf161, "h161", 0));
	I(nullcBindModuleFunctionHelper("hw", hf162, "S7::h162", 0));
	I(nullcBindModuleFunctionHelper("hw", hf163, "h163", 0));
	I(nullcBindModuleFunctionHelper("hw", hf164, "h164", 0));
	I(nullcBindModuleFunctionHelper("hw", hf165, "S10::h165", 0));
	I(nullcBindModuleFunctionHelper("hw", hf166, "h166", 0));
	I(nullcBindModuleFunctionHelper("hw", hf167, "h167", 0));
	I(nullcBindModuleFunctionHelper("hw", hf168, "h168", 0));
	I(nullcBindModuleFunctionHelper("hw", hf169, "S11::h169", 0));
	I(nullcBindModuleFunctionHelper("hw", hf170, "S13::h170", 0));
	I(nullcBindModuleFunctionHelper("hw", hf171, "h171", 0));
	I(nullcBindModuleFunctionHelper("hw", hf172, "h172", 0));
	I(nullcBindModuleFunctionHelper("hw", hf173, "h173", 0));
	I(nullcBindModuleFunctionHelper("hw", hf174, "h174", 0));
	I(nullcBindModuleFunctionHelper("hw", hf175, "h175", 0));
	I(nullcBindModuleFunctionHelper("hw", hf176, "h176", 0));
	I(nullcBindModuleFunctionHelper("hw", hf177, "h177", 0));
	I(nullcBindModuleFunctionHelper("hw", hf178, "h178", 0));
	I(nullcBindModuleFunctionHelper("hw", hf179, "h179", 0));
	I(nullcBindModuleFunctionHelper("hw", hf180, "h180", 0));
	I(nullcBindModuleFunctionHelper("hw", hf181, "S15::h181", 0));
	I(nullcBindModuleFunctionHelper("hw", hf182, "h182", 0));
	I(nullcBindModuleFunctionHelper("hw", hf183, "h183", 0));
	I(nullcBindModuleFunctionHelper("hw", hf184, "h184", 0));
	I(nullcBindModuleFunctionHelper("hw", hf185, "S34::h185", 0));
	I(nullcBindModuleFunctionHelper("hw", hf186, "S4::h186", 0));
	I(nullcBindModuleFunctionHelper("hw", hf187, "h187", 0));
	I(nullcBindModuleFunctionHelper("hw", hf188, "h188", 0));
	I(nullcBindModuleFunctionHelper("hw", hf189, "h189", 0));
	I(nullcBindModuleFunctionHelper("hw", hf190, "h190", 0));
	I(nullcBindModuleFunctionHelper("hw", hf191, "h191", 0));
	I(nullcBindModuleFunctionHelper("hw", hf192, "h192", 0));
	I(nullcBindModuleFunctionHelper("hw", hf193, "h193", 0));
	I(nullcBindModuleFunctionHelper("hw", hf194, "h194", 0));
	I(nullcBindModuleFunctionHelper("hw", hf195, "h195", 0));
	I(nullcBindModuleFunctionHelper("hw", hf196, "h196", 0));
	I(nullcBindModuleFunctionHelper("hw", hf197, "h197", 0));
	I(nullcBindModuleFunctionHelper("hw", hf198, "h198", 0));
	I(nullcBindModuleFunctionHelper("hw", hf199, "h199", 0));
	I(nullcBindModuleFunctionHelper("hw", hf200, "h200", 0));
	I(nullcBindModuleFunctionHelper("hw", hf201, "h201", 0));
	I(nullcBindModuleFunctionHelper("hw", hf202, "S25::h202", 0));
	I(nullcBindModuleFunctionHelper("hw", hf203, "h203", 0));
	I(nullcBindModuleFunctionHelper("hw", hf204, "h204", 0));
	I(nullcBindModuleFunctionHelper("hw", hf205, "S8::h205", 0));
	I(nullcBindModuleFunctionHelper("hw", hf206, "S6::h206", 0));
	I(nullcBindModuleFunctionHelper("hw", hf207, "h207", 0));
	I(nullcBindModuleFunctionHelper("hw", hf208, "h208", 0));
	I(nullcBindModuleFunctionHelper("hw", hf209, "h209", 0));
	I(nullcBindModuleFunctionHelper("hw", hf210, "h210", 0));
	I(nullcBindModuleFunctionHelper("hw", hf211, "S4::h211", 0));
	I(nullcBindModuleFunctionHelper("hw", hf212, "h212", 0));
	I(nullcBindModuleFunctionHelper("hw", hf213, "h213", 0));
	I(nullcBindModuleFunctionHelper("hw", hf214, "S27::h214", 0));
	I(nullcBindModuleFunctionHelper("hw", hf215, "h215", 0));
	I(nullcBindModuleFunctionHelper("hw", hf216, "h216", 0));
	I(nullcBindModuleFunctionHelper("hw", hf217, "S34::h217", 0));
	I(nullcBindModuleFunctionHelper("hw", hf218, "h218", 0));
	I(nullcBindModuleFunctionHelper("hw", hf219, "h219", 0));
	I(nullcBindModuleFunctionHelper("hw", hf220, "h220", 0));
	I(nullcBindModuleFunctionHelper("hw", hf221, "h221", 0));
	I(nullcBindModuleFunctionHelper("hw", hf222, "h222", 0));
	I(nullcBindModuleFunctionHelper("hw", hf223, "h223", 0));
	I(nullcBindModuleFunctionHelper("hw", hf224, "h224", 0));
	I(nullcBindModuleFunctionHelper("hw", hf225, "h225", 0));
	I(nullcBindModuleFunctionHelper("hw", hf226, "h226", 0));
	I(nullcBindModuleFunctionHelper("hw", hf227, "h227", 0));
	I(nullcBindModuleFunctionHelper("hw", hf228, "h228", 0));
	I(nullcBindModuleFunctionHelper("hw", hf229, "S10::h229", 0));
	I(nullcBindModuleFunctionHelper("hw", hf230, "h230", 0));
	I(nullcBindModuleFunctionHelper("hw", hf231, "S18::h231", 0));
	I(nullcBindModuleFunctionHelper("hw", hf232, "h232", 0));
	I(nullcBindModuleFunctionHelper("hw", hf233, "S13::h233", 0));
	I(nullcBindModuleFunctionHelper("hw", hf234, "h234", 0));
	I(nullcBindModuleFunctionHelper("hw", hf235, "h235", 0));
	I(nullcBindModuleFunctionHelper("hw", hf236, "S3::h236", 0));
	I(nullcBindModuleFunctionHelper("hw", hf237, "h237", 0));
	I(nullcBindModuleFunctionHelper("hw", hf238, "h238", 0));
	I(nullcBindModuleFunctionHelper("hw", hf239, "h239", 0));
	I(nullcBindModuleFunctionHelper("hw", hf240, "S9::h240", 0));
	I(nullcBindModuleFunctionHelper("hw", hf241, "S14::h241", 0));
	I(nullcBindModuleFunctionHelper("hw", hf242, "S3::h242", 0));
	I(nullcBindModuleFunctionHelper("hw", hf243, "h243", 0));
	I(nullcBindModuleFunctionHelper("hw", hf244, "h244", 0));
	I(nullcBindModuleFunctionHelper("hw", hf245, "h245", 0));
	I(nullcBindModuleFunctionHelper("hw", hf246, "h246", 0));
	I(nullcBindModuleFunctionHelper("hw", hf247, "h247", 0));
	I(nullcBindModuleFunctionHelper("hw", hf248, "S25::h248", 0));
	I(nullcBindModuleFunctionHelper("hw", hf249, "S12::h249", 0));
	I(nullcBindModuleFunctionHelper("hw", hf250, "h250", 0));
	I(nullcBindModuleFunctionHelper("hw", hf251, "h251", 0));
	I(nullcBindModuleFunctionHelper("hw", hf252, "h252", 0));
	I(nullcBindModuleFunctionHelper("hw", hf253, "h253", 0));
	I(nullcBindModuleFunctionHelper("hw", hf254, "h254", 0));
	I(nullcBindModuleFunctionHelper("hw", hf255, "S8::h255", 0));
	I(nullcBindModuleFunctionHelper("hw", hf256, "h256", 0));
	I(nullcBindModuleFunctionHelper("hw", hf257, "h257", 0));
	I(nullcBindModuleFunctionHelper("hw", hf258, "h258", 0));
	I(nullcBindModuleFunctionHelper("hw", hf259, "S27::h259", 0));
	I(nullcBindModuleFunctionHelper("hw", hf260, "h260", 0));
	I(nullcBindModuleFunctionHelper("hw", hf261, "h261", 0));
	I(nullcBindModuleFunctionHelper("hw", hf262, "h262", 0));
	I(nullcBindModuleFunctionHelper("hw", hf263, "h263", 0));
	I(nullcBindModuleFunctionHelper("hw", hf264, "h264", 0));
	I(nullcBindModuleFunctionHelper("hw", hf265, "S1::h265", 0));
	I(nullcBindModuleFunctionHelper("hw", hf266, "h266", 0));
	I(nullcBindModuleFunctionHelper("hw", hf267, "S9::h267", 0));
	I(nullcBindModuleFunctionHelper("hw", hf268, "h268", 0));
	I(nullcBindModuleFunctionHelper("hw", hf269, "h269", 0));
	I(nullcBindModuleFunctionHelper("hw", hf270, "h270", 0));
	I(nullcBindModuleFunctionHelper("hw", hf271, "h271", 0));
	I(nullcBindModuleFunctionHelper("hw", hf272, "S5::h272", 0));
	I(nullcBindModuleFunctionHelper("hw", hf273, "S16::h273", 0));
	I(nullcBindModuleFunctionHelper("hw", hf274, "S10::h274", 0));
	I(nullcBindModuleFunctionHelper("hw", hf275, "h275", 0));
	I(nullcBindModuleFunctionHelper("hw", hf276, "h276", 0));
	I(nullcBindModuleFunctionHelper("hw", hf277, "h277", 0));
	I(nullcBindModuleFunctionHelper("hw", hf278, "h278", 0));
	I(nullcBindModuleFunctionHelper("hw", hf279, "h279", 0));
	I(nullcBindModuleFunctionHelper("hw", hf280, "S19::h280", 0));
	I(nullcBindModuleFunctionHelper("hw", hf281, "S17::h281", 0));
	I(nullcBindModuleFunctionHelper("hw", hf282, "h282", 0));
	I(nullcBindModuleFunctionHelper("hw", hf283, "S28::h283", 0));
	I(nullcBindModuleFunctionHelper("hw", hf284, "h284", 0));
	I(nullcBindModuleFunctionHelper("hw", hf285, "h285", 0));
	I(nullcBindModuleFunctionHelper("hw", hf286, "h286", 0));
	I(nullcBindModuleFunctionHelper("hw", hf287, "h287", 0));
	I(nullcBindModuleFunctionHelper("hw", hf288, "h288", 0));
	I(nullcBindModuleFunctionHelper("hw", hf289, "S13::h289", 0));
	I(nullcBindModuleFunctionHelper("hw", hf290, "S2::h290", 0));
	I(nullcBindModuleFunctionHelper("hw", hf291, "h291", 0));
	I(nullcBindModuleFunctionHelper("hw", hf292, "h292", 0));
	I(nullcBindModuleFunctionHelper("hw", hf293, "h293", 0));
	I(nullcBindModuleFunctionHelper("hw", hf294, "h294", 0));
	I(nullcBindModuleFunctionHelper("hw", hf295, "h295", 0));
	I(nullcBindModuleFunctionHelper("hw", hf296, "h296", 0));
	I(nullcBindModuleFunctionHelper("hw", hf297, "h297", 0));
	I(nullcBindModuleFunctionHelper("hw", hf298, "S35::h298", 0));
	I(nullcBindModuleFunctionHelper("hw", hf299, "h299", 0));
	I(nullcBindModuleFunctionHelper("hw", hf300, "h300", 0));
	I(nullcBindModuleFunctionHelper("hw", hf301, "S14::h301", 0));
	I(nullcBindModuleFunctionHelper("hw", hf302, "h302", 0));
	I(nullcBindModuleFunctionHelper("hw", hf303, "S15::h303", 0));
	I(nullcBindModuleFunctionHelper("hw", hf304, "h304", 0));
	I(nullcBindModuleFunctionHelper("hw", hf305, "h305", 0));
	I(nullcBindModuleFunctionHelper("hw", hf306, "S32::h306", 0));
	I(nullcBindModuleFunctionHelper("hw", hf307, "S32::h307", 0));
	I(nullcBindModuleFunctionHelper("hw", hf308, "h308", 0));
	I(nullcBindModuleFunctionHelper("hw", hf309, "h309", 0));
	I(nullcBindModuleFunctionHelper("hw", hf310, "S4::h310", 0));
	I(nullcBindModuleFunctionHelper("hw", hf311, "h311", 0));
	I(nullcBindModuleFunctionHelper("hw", hf312, "h312", 0));
	I(nullcBindModuleFunctionHelper("hw", hf313, "h313", 0));
	I(nullcBindModuleFunctionHelper("hw", hf314, "h314", 0));
	I(nullcBindModuleFunctionHelper("hw", hf315, "h315", 0));
	I(nullcBindModuleFunctionHelper("hw", hf316, "h316", 0));
	I(nullcBindModuleFunctionHelper("hw", hf317, "h317", 0));
	I(nullcBindModuleFunctionHelper("hw", hf318, "h318", 0));
	I(nullcBindModuleFunctionHelper("hw", hf319, "h319", 0));
	I(nullcBindModuleFunctionHelper("hw", hf320, "S6::h320", 0));
	I(nullcBindModuleFunctionHelper("hw", hf321, "h321", 0));
	I(nullcBindModuleFunctionHelper("hw", hf322, "S21::h322", 0));
	I(nullcBindModuleFunctionHelper("hw", hf323, "h323", 0));
	I(nullcBindModuleFunctionHelper("hw", hf324, "h324", 0));
	I(nullcBindModuleFunctionHelper("hw", hf325, "h325", 0));
	I(nullcBindModuleFunctionHelper("hw", hf326, "h326", 0));
	I(nullcBindModuleFunctionHelper("hw", hf327, "h327", 0));
	I(nullcBindModuleFunctionHelper("hw", hf328, "h328", 0));
	I(nullcBindModuleFunctionHelper("hw", hf329, "S35::h329", 0));
	I(nullcBindModuleFunctionHelper("hw", hf330, "h330", 0));
	I(nullcBindModuleFunctionHelper("hw", hf331, "h331", 0));
	I(nullcBindModuleFunctionHelper("hw", hf332, "S6::h332", 0));
	I(nullcBindModuleFunctionHelper("hw", hf333, "S12::h333", 0));
	I(nullcBindModuleFunctionHelper("hw", hf334, "h334", 0));
	I(nullcBindModuleFunctionHelper("hw", hf335, "S10::h335", 0));
	I(nullcBindModuleFunctionHelper("hw", hf336, "h336", 0));
	I(nullcBindModuleFunctionHelper("hw", hf337, "h337", 0));
	I(nullcBindModuleFunctionHelper("hw", hf338, "h338", 0));
	I(nullcBindModuleFunctionHelper("hw", hf339, "S9::h339", 0));
	I(nullcBindModuleFunctionHelper("hw", hf340, "S12::h340", 0));
	I(nullcBindModuleFunctionHelper("hw", hf341, "h341", 0));
	I(nullcBindModuleFunctionHelper("hw", hf342, "h342", 0));
	I(nullcBindModuleFunctionHelper("hw", hf343, "h343", 0));
	I(nullcBindModuleFunctionHelper("hw", hf344, "h344", 0));
	I(nullcBindModuleFunctionHelper("hw", hf345, "h345", 0));
	I(nullcBindModuleFunctionHelper("hw", hf346, "h346", 0));
	I(nullcBindModuleFunctionHelper("hw", hf347, "S6::h347", 0));
	I(nullcBindModuleFunctionHelper("hw", hf348, "S11::h348", 0));
	I(nullcBindModuleFunctionHelper("hw", hf349, "h349", 0));
	I(nullcBindModuleFunctionHelper("hw", hf350, "h350", 0));
	I(nullcBindModuleFunctionHelper("hw", hf351, "h351", 0));
	I(nullcBindModuleFunctionHelper("hw", hf352, "h352", 0));
	I(nullcBindModuleFunctionHelper("hw", hf353, "h353", 0));
	I(nullcBindModuleFunctionHelper("hw", hf354, "h354", 0));
	I(nullcBindModuleFunctionHelper("hw", hf355, "h355", 0));
	I(nullcBindModuleFunctionHelper("hw", hf356, "S33::h356", 0));
	I(nullcBindModuleFunctionHelper("hw", hf357, "h357", 0));
	I(nullcBindModuleFunctionHelper("hw", hf358, "h358", 0));
	I(nullcBindModuleFunctionHelper("hw", hf359, "h359", 0));
	I(nullcBindModuleFunctionHelper("hw", hf360, "h360", 0));
	I(nullcBindModuleFunctionHelper("hw", hf361, "h361", 0));
	I(nullcBindModuleFunctionHelper("hw", hf362, "h362", 0));
	I(nullcBindModuleFunctionHelper("hw", hf363, "h363", 0));
	I(nullcBindModuleFunctionHelper("hw", hf364, "h364", 0));
	I(nullcBindModuleFunctionHelper("hw", hf365, "h365", 0));
	I(nullcBindModuleFunctionHelper("hw", hf366, "h366", 0));
	I(nullcBindModuleFunctionHelper("hw", hf367, "h367", 0));
	I(nullcBindModuleFunctionHelper("hw", hf368, "h368", 0));
	I(nullcBindModuleFunctionHelper("hw", hf369, "S21::h369", 0));
	I(nullcBindModuleFunctionHelper("hw", hf370, "h370", 0));
	I(nullcBindModuleFunctionHelper("hw", hf371, "S10::h371", 0));
	I(nullcBindModuleFunctionHelper("hw", hf372, "h372", 0));
	I(nullcBindModuleFunctionHelper("hw", hf373, "h373", 0));
	I(nullcBindModuleFunctionHelper("hw", hf374, "h374", 0));
	I(nullcBindModuleFunctionHelper("hw", hf375, "h375", 0));
	I(nullcBindModuleFunctionHelper("hw", hf376, "h376", 0));
	I(nullcBindModuleFunctionHelper("hw", hf377, "S16::h377", 0));
	I(nullcBindModuleFunctionHelper("hw", hf378, "h378", 0));
	I(nullcBindModuleFunctionHelper("hw", hf379, "h379", 0));
	I(nullcBindModuleFunctionHelper("hw", hf380, "h380", 0));
	I(nullcBindModuleFunctionHelper("hw", hf381, "h381", 0));
	I(nullcBindModuleFunctionHelper("hw", hf382, "h382", 0));
	I(nullcBindModuleFunctionHelper("hw", hf383, "h383", 0));
	I(nullcBindModuleFunctionHelper("hw", hf384, "h384", 0));
	I(nullcBindModuleFunctionHelper("hw", hf385, "h385", 0));
	I(nullcBindModuleFunctionHelper("hw", hf386, "h386", 0));
	I(nullcBindModuleFunctionHelper("hw", hf387, "h387", 0));
	I(nullcBindModuleFunctionHelper("hw", hf388, "h388", 0));
	I(nullcBindModuleFunctionHelper("hw", hf389, "h389", 0));
	I(nullcBindModuleFunctionHelper("hw", hf390, "h390", 0));
	I(nullcBindModuleFunctionHelper("hw", hf391, "h391", 0));
	I(nullcBindModuleFunctionHelper("hw", hf392, "S19::h392", 0));
	I(nullcBindModuleFunctionHelper("hw", hf393, "h393", 0));
	I(nullcBindModuleFunctionHelper("hw", hf394, "h394", 0));
	I(nullcBindModuleFunctionHelper("hw", hf395, "h395", 0));
	I(nullcBindModuleFunctionHelper("hw", hf396, "h396", 0));
	I(nullcBindModuleFunctionHelper("hw", hf397, "h397", 0));
	I(nullcBindModuleFunctionHelper("hw", hf398, "h398", 0));
	I(nullcBindModuleFunctionHelper("hw", hf399, "h399", 0));
	I(nullcBindModuleFunctionHelper("hw", hf400, "h400", 0));
	I(nullcBindModuleFunctionHelper("hw", hf401, "h401", 0));
	I(nullcBindModuleFunctionHelper("hw", hf402, "h402", 0));
	I(nullcBindModuleFunctionHelper("hw", hf403, "S19::h403", 0));
	I(nullcBindModuleFunctionHelper("hw", hf404, "h404", 0));
	I(nullcBindModuleFunctionHelper("hw", hf405, "h405", 0));
	I(nullcBindModuleFunctionHelper("hw", hf406, "S33::h406", 0));
	I(nullcBindModuleFunctionHelper("hw", hf407, "h407", 0));
	I(nullcBindModuleFunctionHelper("hw", hf408, "S13::h408", 0));
	I(nullcBindModuleFunctionHelper("hw", hf409, "S13::h409", 0));
	I(nullcBindModuleFunctionHelper("hw", hf410, "h410", 0));
	I(nullcBindModuleFunctionHelper("hw", hf411, "h411", 0));
	I(nullcBindModuleFunctionHelper("hw", hf412, "h412", 0));
	I(nullcBindModuleFunctionHelper("hw", hf413, "h413", 0));
	I(nullcBindModuleFunctionHelper("hw", hf414, "h414", 0));
	I(nullcBindModuleFunctionHelper("hw", hf415, "S28::h415", 0));
	I(nullcBindModuleFunctionHelper("hw", hf416, "h416", 0));
	I(nullcBindModuleFunctionHelper("hw", hf417, "h417", 0));
	I(nullcBindModuleFunctionHelper("hw", hf418, "S33::h418", 0));
	I(nullcBindModuleFunctionHelper("hw", hf419, "h419", 0));
	I(nullcBindModuleFunctionHelper("hw", hf420, "h420", 0));
	I(nullcBindModuleFunctionHelper("hw", hf421, "h421", 0));
	I(nullcBindModuleFunctionHelper("hw", hf422, "h422", 0));
	I(nullcBindModuleFunctionHelper("hw", hf423, "h423", 0));
	I(nullcBindModuleFunctionHelper("hw", hf424, "h424", 0));
	I(nullcBindModuleFunctionHelper("hw", hf425, "h425", 0));
	I(nullcBindModuleFunctionHelper("hw", hf426, "h426", 0));
	I(nullcBindModuleFunctionHelper("hw", hf427, "h427", 0));
	I(nullcBindModuleFunctionHelper("hw", hf428, "h428", 0));
	I(nullcBindModuleFunctionHelper("hw", hf429, "h429", 0));
	I(nullcBindModuleFunctionHelper("hw", hf430, "h430", 0));
	I(nullcBindModuleFunctionHelper("hw", hf431, "h431", 0));
	I(nullcBindModuleFunctionHelper("hw", hf432, "h432", 0));
	I(nullcBindModuleFunctionHelper("hw", hf433, "h433", 0));
	I(nullcBindModuleFunctionHelper("hw", hf434, "h434", 0));
	I(nullcBindModuleFunctionHelper("hw", hf435, "h435", 0));
	I(nullcBindModuleFunctionHelper("hw", hf436, "h436", 0));
	I(nullcBindModuleFunctionHelper("hw", hf437, "h437", 0));
	I(nullcBindModuleFunctionHelper("hw", hf438, "h438", 0));
	I(nullcBindModuleFunctionHelper("hw", hf439, "h439", 0));
	I(nullcBindModuleFunctionHelper("hw", hf440, "h440", 0));
	I(nullcBindModuleFunctionHelper("hw", hf441, "h441", 0));
	I(nullcBindModuleFunctionHelper("hw", hf442, "h442", 0));
	I(nullcBindModuleFunctionHelper("hw", hf443, "h443", 0));
	I(nullcBindModuleFunctionHelper("hw", hf444, "h444", 0));
	I(nullcBindModuleFunctionHelper("hw", hf445, "h445", 0));
	I(nullcBindModuleFunctionHelper("hw", hf446, "h446", 0));
	I(nullcBindModuleFunctionHelper("hw", hf447, "h447", 0));
	I(nullcBindModuleFunctionHelper("hw", hf448, "h448", 0));
	I(nullcBindModuleFunctionHelper("hw", hf449, "h449", 0));
	I(nullcBindModuleFunctionHelper("hw", hf450, "h450", 0));
	I(nullcBindModuleFunctionHelper("hw", hf451, "h451", 0));
	I(nullcBindModuleFunctionHelper("hw", hf452, "h452", 0));
	I(nullcBindModuleFunctionHelper("hw", hf453, "h453", 0));
	I(nullcBindModuleFunctionHelper("hw", hf454, "h454", 0));
	I(nullcBindModuleFunctionHelper("hw", hf455, "h455", 0));
	I(nullcBindModuleFunctionHelper("hw", hf456, "h456", 0));
	I(nullcBindModuleFunctionHelper("hw", hf457, "h457", 0));
	I(nullcBindModuleFunctionHelper("hw", hf458, "h458", 0));
	I(nullcBindModuleFunctionHelper("hw", hf459, "h459", 0));
	I(nullcBindModuleFunctionHelper("hw", hf460, "h460", 0));
	I(nullcBindModuleFunctionHelper("hw", hf461, "h461", 0));
	I(nullcBindModuleFunctionHelper("hw", hf462, "h462", 0));
	I(nullcBindModuleFunctionHelper("hw", hf463, "h463", 0));
	I(nullcBindModuleFunctionHelper("hw", hf464, "h464", 0));
	I(nullcBindModuleFunctionHelper("hw", hf465, "h465", 0));
	I(nullcBindModuleFunctionHelper("hw", hf466, "h466", 0));
	I(nullcBindModuleFunctionHelper("hw", hf467, "h467", 0));
	I(nullcBindModuleFunctionHelper("hw", hf468, "h468", 0));
	I(nullcBindModuleFunctionHelper("hw", hf469, "h469", 0));
	I(nullcBindModuleFunctionHelper("hw", hf470, "h470", 0));
	I(nullcBindModuleFunctionHelper("hw", hf471, "h471", 0));
	I(nullcBindModuleFunctionHelper("hw", hf472, "h472", 0));
	I(nullcBindModuleFunctionHelper("hw", hf473, "h473", 0));
	I(nullcBindModuleFunctionHelper("hw", hf474, "h474", 0));
	I(nullcBindModuleFunctionHelper("hw", hf475, "h475", 0));
	I(nullcBindModuleFunctionHelper("hw", hf476, "h476", 0));
	I(nullcBindModuleFunctionHelper("hw", hf477, "h477", 0));
	I(nullcBindModuleFunctionHelper("hw", hf478, "h478", 0));
	I(nullcBindModuleFunctionHelper("hw", hf479, "h479", 0));
	I(nullcBindModuleFunctionHelper("hw", hf480, "h480", 0));
	I(nullcBindModuleFunctionHelper("hw", hf481, "h481", 0));
	I(nullcBindModuleFunctionHelper("hw", hf482, "h482", 0));
	I(nullcBindModuleFunctionHelper("hw", hf483, "h483", 0));
	I(nullcBindModuleFunctionHelper("hw", hf484, "h484", 0));
	I(nullcBindModuleFunctionHelper("hw", hf485, "h485", 0));
	I(nullcBindModuleFunctionHelper("hw", hf486, "h486", 0));
	I(nullcBindModuleFunctionHelper("hw", hf487, "h487", 0));
	I(nullcBindModuleFunctionHelper("hw", hf488, "h488", 0));
	I(nullcBindModuleFunctionHelper("hw", hf489, "h489", 0));
	I(nullcBindModuleFunctionHelper("hw", hf490, "h490", 0));
	I(nullcBindModuleFunctionHelper("hw", hf491, "h491", 0));
	I(nullcBindModuleFunctionHelper("hw", hf492, "h492", 0));
	I(nullcBindModuleFunctionHelper("hw", hf493, "h493", 0));
	I(nullcBindModuleFunctionHelper("hw", hf494, "h494", 0));
	I(nullcBindModuleFunctionHelper("hw", hf495, "h495", 0));
	I(nullcBindModuleFunctionHelper("hw", hf496, "h496", 0));
	I(nullcBindModuleFunctionHelper("hw", hf497, "h497", 0));
	I(nullcBindModuleFunctionHelper("hw", hf498, "h498", 0));
	I(nullcBindModuleFunctionHelper("hw", hf499, "h499", 0));
	I(nullcBindModuleFunctionHelper("hw", hf500, "h500", 0));
	I(nullcBindModuleFunctionHelper("hw", hf501, "h501", 0));
	I(nullcBindModuleFunctionHelper("hw", hf502, "h502", 0));
	I(nullcBindModuleFunctionHelper("hw", hf503, "h503", 0));
	I(nullcBindModuleFunctionHelper("hw", hf504, "h504", 0));
	I(nullcBindModuleFunctionHelper("hw", hf505, "h505", 0));
	I(nullcBindModuleFunctionHelper("hw", hf506, "h506", 0));
	I(nullcBindModuleFunctionHelper("hw", hf507, "h507", 0));
	I(nullcBindModuleFunctionHelper("hw", hf508, "h508", 0));
	I(nullcBindModuleFunctionHelper("hw", hf509, "h509", 0));
	I(nullcBindModuleFunctionHelper("hw", hf510, "h510", 0));
	I(nullcBindModuleFunctionHelper("hw", hf511, "h511", 0));
	I(nullcBindModuleFunctionHelper("hw", hf512, "h512", 0));
	I(nullcBindModuleFunctionHelper("hw", hf513, "h513", 0));
	I(nullcBindModuleFunctionHelper("hw", hf514, "h514", 0));
	I(nullcBindModuleFunctionHelper("hw", hf515, "h515", 0));
	I(nullcBindModuleFunctionHelper("hw", hf516, "h516", 0));
	I(nullcBindModuleFunctionHelper("hw", hf517, "h517", 0));
	I(nullcBindModuleFunctionHelper("hw", hf518, "h518", 0));
	I(nullcBindModuleFunctionHelper("hw", hf519, "h519", 0));
	I(nullcBindModuleFunctionHelper("hw", hf520, "h520", 0));
	I(nullcBindModuleFunctionHelper("hw", hf521, "h521", 0));
	I(nullcBindModuleFunctionHelper("hw", hf522, "h522", 0));
	I(nullcBindModuleFunctionHelper("hw", hf523, "h523", 0));
	I(nullcBindModuleFunctionHelper("hw", hf524, "h524", 0));
	I(nullcBindModuleFunctionHelper("hw", hf525, "h525", 0));
	I(nullcBindModuleFunctionHelper("hw", hf526, "h526", 0));
	I(nullcBindModuleFunctionHelper("hw", hf527, "h527", 0));
	I(nullcBindModuleFunctionHelper("hw", hf528, "h528", 0));
	I(nullcBindModuleFunctionHelper("hw", hf529, "h529", 0));
	I(nullcBindModuleFunctionHelper("hw", hf530, "h530", 0));
	I(nullcBindModuleFunctionHelper("hw", hf531, "h531", 0));
	I(nullcBindModuleFunctionHelper("hw", hf532, "h532", 0));
	I(nullcBindModuleFunctionHelper("hw", hf533, "h533", 0));
	I(nullcBindModuleFunctionHelper("hw", hf534, "h534", 0));
	I(nullcBindModuleFunctionHelper("hw", hf535, "h535", 0));
	I(nullcBindModuleFunctionHelper("hw", hf536, "h536", 0));
	I(nullcBindModuleFunctionHelper("hw", hf537, "h537", 0));
	I(nullcBindModuleFunctionHelper("hw", hf538, "h538", 0));
	I(nullcBindModuleFunctionHelper("hw", hf539, "h539", 0));
	I(nullcBindModuleFunctionHelper("hw", hf540, "h540", 0));
	I(nullcBindModuleFunctionHelper("hw", hf541, "h541", 0));
	I(nullcBindModuleFunctionHelper("hw", hf542, "h542", 0));
	I(nullcBindModuleFunctionHelper("hw", hf543, "h543", 0));
	I(nullcBindModuleFunctionHelper("hw", hf544, "h544", 0));
	I(nullcBindModuleFunctionHelper("hw", hf545, "h545", 0));
	I(nullcBindModuleFunctionHelper("hw", hf546, "h546", 0));
	I(nullcBindModuleFunctionHelper("hw", hf547, "h547", 0));
	I(nullcBindModuleFunctionHelper("hw", hf548, "h548", 0));
	I(nullcBindModuleFunctionHelper("hw", hf549, "h549", 0));
	I(nullcBindModuleFunctionHelper("hw", hf550, "h550", 0));
	I(nullcBindModuleFunctionHelper("hw", hf551, "h551", 0));
	I(nullcBindModuleFunctionHelper("hw", hf552, "h552", 0));
	I(nullcBindModuleFunctionHelper("hw", hf553, "h553", 0));
	I(nullcBindModuleFunctionHelper("hw", hf554, "h554", 0));
	I(nullcBindModuleFunctionHelper("hw", hf555, "h555", 0));
	I(nullcBindModuleFunctionHelper("hw", hf556, "h556", 0));
	I(nullcBindModuleFunctionHelper("hw", hf557, "h557", 0));
	I(nullcBindModuleFunctionHelper("hw", hf558, "h558", 0));
	I(nullcBindModuleFunctionHelper("hw", hf559, "h559", 0));
	I(nullcBindModuleFunctionHelper("hw", hf560, "h560", 0));
	I(nullcBindModuleFunctionHelper("hw", hf561, "h561", 0));
	I(nullcBindModuleFunctionHelper("hw", hf562, "h562", 0));
	I(nullcBindModuleFunctionHelper("hw", hf563, "h563", 0));
	I(nullcBindModuleFunctionHelper("hw", hf564, "h564", 0));
	I(nullcBindModuleFunctionHelper("hw", hf565, "h565", 0));
	I(nullcBindModuleFunctionHelper("hw", hf566, "h566", 0));
	I(nullcBindModuleFunctionHelper("hw", hf567, "h567", 0));
	I(nullcBindModuleFunctionHelper("hw", hf568, "h568", 0));
	I(nullcBindModuleFunctionHelper("hw", hf569, "h569", 0));
	I(nullcBindModuleFunctionHelper("hw", hf570, "h570", 0));
	I(nullcBindModuleFunctionHelper("hw", hf571, "h571", 0));
	I(nullcBindModuleFunctionHelper("hw", hf572, "h572", 0));
	I(nullcBindModuleFunctionHelper("hw", hf573, "h573", 0));
	I(nullcBindModuleFunctionHelper("hw", hf574, "h574", 0));
	I(nullcBindModuleFunctionHelper("hw", hf575, "h575", 0));
	I(nullcBindModuleFunctionHelper("hw", hf576, "h576", 0));
	I(nullcBindModuleFunctionHelper("hw", hf577, "h577", 0));
	I(nullcBindModuleFunctionHelper("hw", hf578, "h578", 0));
	I(nullcBindModuleFunctionHelper("hw", hf579, "h579", 0));
	I(nullcBindModuleFunctionHelper("hw", hf580, "h580", 0));
	I(nullcBindModuleFunctionHelper("hw", hf581, "h581", 0));
	I(nullcBindModuleFunctionHelper("hw", hf582, "h582", 0));
	return true;
}
static int interopCall(int sig, const char *name, NULLCFuncPtr *fp, const Frame &f, unsigned p)
{
	switch(sig)
	{
	case 0: { auto v0 = arg_char(f, p); auto v1 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 1: { long long v0 = arg_long(f, p); double v1 = arg_double(f, p); float v2 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 2: { float v0 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 3: { auto v0 = arg_short(f, p); auto v1 = arg_int(f, p); double v2 = arg_double(f, p); double v3 = arg_double(f, p); auto v4 = arg_short(f, p); auto v5 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 4: { auto v0 = arg_iarr(f, p); auto v1 = arg_char(f, p); auto v2 = arg_bool(f, p); auto v3 = arg_aref(f, p); auto v4 = arg_iref(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 5: { auto v0 = arg_char(f, p); auto v1 = arg_short(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 6: { auto v0 = arg_bool(f, p); auto v1 = arg_int(f, p); auto v2 = arg_iarr(f, p); auto v3 = arg_char(f, p); double v4 = arg_double(f, p); auto v5 = arg_int(f, p); double v6 = arg_double(f, p); float v7 = arg_float(f, p); float v8 = arg_float(f, p); float v9 = arg_float(f, p); long long v10 = arg_long(f, p); double v11 = arg_double(f, p); auto v12 = arg_int(f, p); auto v13 = arg_int(f, p); float v14 = arg_float(f, p); float v15 = arg_float(f, p); auto v16 = arg_iref(f, p); auto v17 = arg_char(f, p); auto v18 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18); }
	case 7: { double v0 = arg_double(f, p); auto v1 = arg_bool(f, p); float v2 = arg_float(f, p); auto v3 = arg_short(f, p); float v4 = arg_float(f, p); double v5 = arg_double(f, p); long long v6 = arg_long(f, p); auto v7 = arg_fn(f, p); auto v8 = arg_int(f, p); auto v9 = arg_fn(f, p); auto v10 = arg_short(f, p); auto v11 = arg_bool(f, p); auto v12 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
	case 8: { auto v0 = arg_bool(f, p); double v1 = arg_double(f, p); double v2 = arg_double(f, p); auto v3 = arg_int(f, p); auto v4 = arg_int(f, p); double v5 = arg_double(f, p); float v6 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6); }
	case 9: { auto v0 = arg_iarr(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 10: { auto v0 = arg_aref(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 11: { float v0 = arg_float(f, p); auto v1 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 12: { double v0 = arg_double(f, p); long long v1 = arg_long(f, p); double v2 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 13: { auto v0 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 14: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); auto v2 = arg_int(f, p); auto v3 = arg_int(f, p); auto v4 = arg_fn(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 15: { double v0 = arg_double(f, p); long long v1 = arg_long(f, p); auto v2 = arg_short(f, p); auto v3 = arg_bool(f, p); auto v4 = arg_int(f, p); auto v5 = arg_short(f, p); double v6 = arg_double(f, p); long long v7 = arg_long(f, p); auto v8 = arg_bool(f, p); auto v9 = arg_char(f, p); float v10 = arg_float(f, p); auto v11 = arg_aarr(f, p); auto v12 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
	case 16: { float v0 = arg_float(f, p); auto v1 = arg_int(f, p); auto v2 = arg_iarr(f, p); auto v3 = arg_int(f, p); auto v4 = arg_int(f, p); float v5 = arg_float(f, p); float v6 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6); }
	case 17: { auto v0 = arg_fn(f, p); auto v1 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 18: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); float v4 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 19: { auto v0 = arg_char(f, p); double v1 = arg_double(f, p); auto v2 = arg_int(f, p); auto v3 = arg_iref(f, p); float v4 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 20: { long long v0 = arg_long(f, p); double v1 = arg_double(f, p); float v2 = arg_float(f, p); auto v3 = arg_aarr(f, p); auto v4 = arg_bool(f, p); auto v5 = arg_bool(f, p); auto v6 = arg_short(f, p); long long v7 = arg_long(f, p); double v8 = arg_double(f, p); long long v9 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 21: { long long v0 = arg_long(f, p); double v1 = arg_double(f, p); auto v2 = arg_aarr(f, p); float v3 = arg_float(f, p); auto v4 = arg_char(f, p); double v5 = arg_double(f, p); auto v6 = arg_int(f, p); auto v7 = arg_fn(f, p); long long v8 = arg_long(f, p); auto v9 = arg_iarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 22: { float v0 = arg_float(f, p); auto v1 = arg_bool(f, p); auto v2 = arg_char(f, p); float v3 = arg_float(f, p); auto v4 = arg_int(f, p); auto v5 = arg_int(f, p); float v6 = arg_float(f, p); auto v7 = arg_fn(f, p); long long v8 = arg_long(f, p); double v9 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 23: { auto v0 = arg_bool(f, p); auto v1 = arg_char(f, p); double v2 = arg_double(f, p); auto v3 = arg_int(f, p); double v4 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 24: { auto v0 = arg_aref(f, p); long long v1 = arg_long(f, p); auto v2 = arg_int(f, p); float v3 = arg_float(f, p); auto v4 = arg_bool(f, p); float v5 = arg_float(f, p); float v6 = arg_float(f, p); float v7 = arg_float(f, p); long long v8 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8); }
	case 25: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); auto v4 = arg_char(f, p); long long v5 = arg_long(f, p); long long v6 = arg_long(f, p); float v7 = arg_float(f, p); auto v8 = arg_char(f, p); auto v9 = arg_char(f, p); auto v10 = arg_bool(f, p); long long v11 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); }
	case 26: { auto v0 = arg_bool(f, p); auto v1 = arg_char(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); auto v4 = arg_char(f, p); auto v5 = arg_short(f, p); double v6 = arg_double(f, p); float v7 = arg_float(f, p); long long v8 = arg_long(f, p); double v9 = arg_double(f, p); auto v10 = arg_int(f, p); double v11 = arg_double(f, p); auto v12 = arg_char(f, p); auto v13 = arg_char(f, p); auto v14 = arg_int(f, p); double v15 = arg_double(f, p); auto v16 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16); }
	case 27: { auto v0 = arg_char(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 28: { auto v0 = arg_bool(f, p); auto v1 = arg_char(f, p); long long v2 = arg_long(f, p); long long v3 = arg_long(f, p); long long v4 = arg_long(f, p); long long v5 = arg_long(f, p); auto v6 = arg_int(f, p); long long v7 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 29: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); auto v2 = arg_iarr(f, p); auto v3 = arg_int(f, p); long long v4 = arg_long(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 30: { long long v0 = arg_long(f, p); double v1 = arg_double(f, p); long long v2 = arg_long(f, p); auto v3 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 31: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); auto v3 = arg_int(f, p); auto v4 = arg_short(f, p); auto v5 = arg_iref(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 32: { auto v0 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 33: { auto v0 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 34: { long long v0 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 35: { auto v0 = arg_bool(f, p); auto v1 = arg_aarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 36: { float v0 = arg_float(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 37: { long long v0 = arg_long(f, p); float v1 = arg_float(f, p); auto v2 = arg_char(f, p); auto v3 = arg_aarr(f, p); auto v4 = arg_int(f, p); auto v5 = arg_int(f, p); float v6 = arg_float(f, p); float v7 = arg_float(f, p); auto v8 = arg_int(f, p); long long v9 = arg_long(f, p); auto v10 = arg_char(f, p); long long v11 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); }
	case 38: { double v0 = arg_double(f, p); auto v1 = arg_aarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 39: { long long v0 = arg_long(f, p); double v1 = arg_double(f, p); long long v2 = arg_long(f, p); auto v3 = arg_char(f, p); double v4 = arg_double(f, p); auto v5 = arg_int(f, p); auto v6 = arg_short(f, p); long long v7 = arg_long(f, p); long long v8 = arg_long(f, p); float v9 = arg_float(f, p); float v10 = arg_float(f, p); auto v11 = arg_char(f, p); auto v12 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
	case 40: { double v0 = arg_double(f, p); long long v1 = arg_long(f, p); auto v2 = arg_bool(f, p); auto v3 = arg_bool(f, p); auto v4 = arg_short(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 41: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); auto v2 = arg_int(f, p); auto v3 = arg_short(f, p); double v4 = arg_double(f, p); auto v5 = arg_bool(f, p); auto v6 = arg_aref(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6); }
	case 42: { auto v0 = arg_iref(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 43: { auto v0 = arg_char(f, p); auto v1 = arg_short(f, p); auto v2 = arg_int(f, p); auto v3 = arg_iref(f, p); auto v4 = arg_short(f, p); double v5 = arg_double(f, p); float v6 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6); }
	case 44: { double v0 = arg_double(f, p); auto v1 = arg_fn(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 45: { long long v0 = arg_long(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 46: { double v0 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 47: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 48: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 49: { auto v0 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 50: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); double v2 = arg_double(f, p); long long v3 = arg_long(f, p); auto v4 = arg_iarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 51: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 52: { auto v0 = arg_iarr(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 53: { auto v0 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 54: { long long v0 = arg_long(f, p); long long v1 = arg_long(f, p); long long v2 = arg_long(f, p); long long v3 = arg_long(f, p); float v4 = arg_float(f, p); float v5 = arg_float(f, p); float v6 = arg_float(f, p); auto v7 = arg_int(f, p); long long v8 = arg_long(f, p); auto v9 = arg_short(f, p); auto v10 = arg_iref(f, p); auto v11 = arg_char(f, p); auto v12 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
	case 55: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 56: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 57: { auto v0 = arg_aref(f, p); long long v1 = arg_long(f, p); auto v2 = arg_int(f, p); auto v3 = arg_aarr(f, p); float v4 = arg_float(f, p); float v5 = arg_float(f, p); auto v6 = arg_fn(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6); }
	case 58: { auto v0 = arg_int(f, p); auto v1 = arg_short(f, p); float v2 = arg_float(f, p); auto v3 = arg_char(f, p); auto v4 = arg_short(f, p); double v5 = arg_double(f, p); auto v6 = arg_char(f, p); auto v7 = arg_short(f, p); auto v8 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8); }
	case 59: { auto v0 = arg_char(f, p); float v1 = arg_float(f, p); auto v2 = arg_char(f, p); auto v3 = arg_int(f, p); auto v4 = arg_int(f, p); long long v5 = arg_long(f, p); auto v6 = arg_short(f, p); auto v7 = arg_int(f, p); auto v8 = arg_char(f, p); double v9 = arg_double(f, p); double v10 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10); }
	case 60: { float v0 = arg_float(f, p); auto v1 = arg_char(f, p); auto v2 = arg_short(f, p); double v3 = arg_double(f, p); auto v4 = arg_iref(f, p); float v5 = arg_float(f, p); auto v6 = arg_int(f, p); auto v7 = arg_int(f, p); auto v8 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8); }
	case 61: { long long v0 = arg_long(f, p); auto v1 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 62: { auto v0 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 63: { auto v0 = arg_char(f, p); auto v1 = arg_aarr(f, p); float v2 = arg_float(f, p); long long v3 = arg_long(f, p); double v4 = arg_double(f, p); auto v5 = arg_short(f, p); auto v6 = arg_short(f, p); auto v7 = arg_short(f, p); float v8 = arg_float(f, p); float v9 = arg_float(f, p); double v10 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10); }
	case 64: { auto v0 = arg_bool(f, p); double v1 = arg_double(f, p); auto v2 = arg_char(f, p); double v3 = arg_double(f, p); auto v4 = arg_int(f, p); auto v5 = arg_char(f, p); auto v6 = arg_short(f, p); auto v7 = arg_iarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 65: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 66: { double v0 = arg_double(f, p); long long v1 = arg_long(f, p); auto v2 = arg_short(f, p); auto v3 = arg_iref(f, p); double v4 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 67: { auto v0 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 68: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); long long v2 = arg_long(f, p); long long v3 = arg_long(f, p); long long v4 = arg_long(f, p); long long v5 = arg_long(f, p); double v6 = arg_double(f, p); double v7 = arg_double(f, p); auto v8 = arg_bool(f, p); long long v9 = arg_long(f, p); long long v10 = arg_long(f, p); long long v11 = arg_long(f, p); long long v12 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
	case 69: { float v0 = arg_float(f, p); auto v1 = arg_bool(f, p); float v2 = arg_float(f, p); auto v3 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 70: { auto v0 = arg_aref(f, p); auto v1 = arg_fn(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 71: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); auto v3 = arg_int(f, p); auto v4 = arg_int(f, p); auto v5 = arg_aarr(f, p); float v6 = arg_float(f, p); double v7 = arg_double(f, p); auto v8 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8); }
	case 72: { auto v0 = arg_aref(f, p); auto v1 = arg_aarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 73: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 74: { double v0 = arg_double(f, p); auto v1 = arg_bool(f, p); auto v2 = arg_iarr(f, p); auto v3 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 75: { auto v0 = arg_short(f, p); double v1 = arg_double(f, p); float v2 = arg_float(f, p); auto v3 = arg_int(f, p); auto v4 = arg_aarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 76: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); auto v4 = arg_iref(f, p); auto v5 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 77: { auto v0 = arg_fn(f, p); auto v1 = arg_char(f, p); double v2 = arg_double(f, p); float v3 = arg_float(f, p); float v4 = arg_float(f, p); auto v5 = arg_int(f, p); auto v6 = arg_short(f, p); auto v7 = arg_char(f, p); double v8 = arg_double(f, p); auto v9 = arg_char(f, p); auto v10 = arg_int(f, p); long long v11 = arg_long(f, p); auto v12 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); }
	case 78: { long long v0 = arg_long(f, p); auto v1 = arg_char(f, p); double v2 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 79: { double v0 = arg_double(f, p); auto v1 = arg_bool(f, p); auto v2 = arg_aarr(f, p); auto v3 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 80: { auto v0 = arg_char(f, p); auto v1 = arg_short(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 81: { auto v0 = arg_char(f, p); auto v1 = arg_int(f, p); auto v2 = arg_char(f, p); float v3 = arg_float(f, p); float v4 = arg_float(f, p); float v5 = arg_float(f, p); float v6 = arg_float(f, p); auto v7 = arg_int(f, p); auto v8 = arg_int(f, p); auto v9 = arg_bool(f, p); auto v10 = arg_aarr(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10); }
	case 82: { auto v0 = arg_fn(f, p); auto v1 = arg_iref(f, p); auto v2 = arg_aref(f, p); long long v3 = arg_long(f, p); auto v4 = arg_int(f, p); auto v5 = arg_bool(f, p); long long v6 = arg_long(f, p); auto v7 = arg_aref(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 83: { auto v0 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 84: { auto v0 = arg_bool(f, p); auto v1 = arg_char(f, p); auto v2 = arg_bool(f, p); long long v3 = arg_long(f, p); auto v4 = arg_short(f, p); auto v5 = arg_int(f, p); float v6 = arg_float(f, p); float v7 = arg_float(f, p); auto v8 = arg_iarr(f, p); auto v9 = arg_fn(f, p); double v10 = arg_double(f, p); auto v11 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); }
	case 85: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 86: { return fp ? nullcCallFunction(*fp) : nullcRunFunction(name); }
	case 87: { auto v0 = arg_bool(f, p); auto v1 = arg_char(f, p); auto v2 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 88: { auto v0 = arg_aarr(f, p); auto v1 = arg_bool(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 89: { auto v0 = arg_aref(f, p); auto v1 = arg_char(f, p); auto v2 = arg_aref(f, p); float v3 = arg_float(f, p); auto v4 = arg_bool(f, p); auto v5 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 90: { auto v0 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 91: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); double v2 = arg_double(f, p); auto v3 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 92: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 93: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); double v3 = arg_double(f, p); auto v4 = arg_int(f, p); auto v5 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 94: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 95: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); auto v3 = arg_int(f, p); double v4 = arg_double(f, p); auto v5 = arg_int(f, p); auto v6 = arg_int(f, p); auto v7 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 96: { long long v0 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 97: { auto v0 = arg_int(f, p); long long v1 = arg_long(f, p); double v2 = arg_double(f, p); long long v3 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 98: { double v0 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 99: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); double v2 = arg_double(f, p); double v3 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 100: { float v0 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 101: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); double v2 = arg_double(f, p); float v3 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 102: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 103: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); double v3 = arg_double(f, p); float v4 = arg_float(f, p); float v5 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 104: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 105: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); double v4 = arg_double(f, p); float v5 = arg_float(f, p); float v6 = arg_float(f, p); float v7 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 106: { float v0 = arg_float(f, p); auto v1 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 107: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); auto v2 = arg_int(f, p); double v3 = arg_double(f, p); float v4 = arg_float(f, p); auto v5 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 108: { double v0 = arg_double(f, p); double v1 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 109: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); double v2 = arg_double(f, p); double v3 = arg_double(f, p); double v4 = arg_double(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 110: { long long v0 = arg_long(f, p); double v1 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 111: { auto v0 = arg_int(f, p); long long v1 = arg_long(f, p); double v2 = arg_double(f, p); double v3 = arg_double(f, p); long long v4 = arg_long(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 112: { long long v0 = arg_long(f, p); auto v1 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 113: { auto v0 = arg_int(f, p); long long v1 = arg_long(f, p); auto v2 = arg_int(f, p); double v3 = arg_double(f, p); long long v4 = arg_long(f, p); auto v5 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 114: { auto v0 = arg_char(f, p); auto v1 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 115: { auto v0 = arg_int(f, p); auto v1 = arg_char(f, p); auto v2 = arg_char(f, p); double v3 = arg_double(f, p); auto v4 = arg_char(f, p); auto v5 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 116: { auto v0 = arg_char(f, p); auto v1 = arg_short(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 117: { auto v0 = arg_int(f, p); auto v1 = arg_char(f, p); auto v2 = arg_short(f, p); auto v3 = arg_int(f, p); double v4 = arg_double(f, p); auto v5 = arg_char(f, p); auto v6 = arg_short(f, p); auto v7 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 118: { auto v0 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 119: { auto v0 = arg_int(f, p); auto v1 = arg_short(f, p); double v2 = arg_double(f, p); auto v3 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 120: { double v0 = arg_double(f, p); float v1 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 121: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); float v2 = arg_float(f, p); double v3 = arg_double(f, p); double v4 = arg_double(f, p); float v5 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 122: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 123: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); double v2 = arg_double(f, p); double v3 = arg_double(f, p); auto v4 = arg_int(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 124: { auto v0 = arg_char(f, p); double v1 = arg_double(f, p); auto v2 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 125: { auto v0 = arg_int(f, p); auto v1 = arg_char(f, p); double v2 = arg_double(f, p); auto v3 = arg_int(f, p); double v4 = arg_double(f, p); auto v5 = arg_char(f, p); double v6 = arg_double(f, p); auto v7 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 126: { long long v0 = arg_long(f, p); long long v1 = arg_long(f, p); long long v2 = arg_long(f, p); long long v3 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 127: { auto v0 = arg_int(f, p); long long v1 = arg_long(f, p); long long v2 = arg_long(f, p); long long v3 = arg_long(f, p); long long v4 = arg_long(f, p); double v5 = arg_double(f, p); long long v6 = arg_long(f, p); long long v7 = arg_long(f, p); long long v8 = arg_long(f, p); long long v9 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 128: { auto v0 = arg_bool(f, p); auto v1 = arg_char(f, p); float v2 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 129: { auto v0 = arg_int(f, p); auto v1 = arg_bool(f, p); auto v2 = arg_char(f, p); float v3 = arg_float(f, p); double v4 = arg_double(f, p); auto v5 = arg_bool(f, p); auto v6 = arg_char(f, p); float v7 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 130: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 131: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); float v4 = arg_float(f, p); double v5 = arg_double(f, p); float v6 = arg_float(f, p); float v7 = arg_float(f, p); float v8 = arg_float(f, p); float v9 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 132: { float v0 = arg_float(f, p); auto v1 = arg_char(f, p); auto v2 = arg_short(f, p); double v3 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 133: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); auto v2 = arg_char(f, p); auto v3 = arg_short(f, p); double v4 = arg_double(f, p); double v5 = arg_double(f, p); float v6 = arg_float(f, p); auto v7 = arg_char(f, p); auto v8 = arg_short(f, p); double v9 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 134: { auto v0 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0) : nullcRunFunction(name, v0); }
	case 135: { auto v0 = arg_int(f, p); auto v1 = arg_char(f, p); double v2 = arg_double(f, p); auto v3 = arg_char(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 136: { auto v0 = arg_int(f, p); long long v1 = arg_long(f, p); auto v2 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2) : nullcRunFunction(name, v0, v1, v2); }
	case 137: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); long long v2 = arg_long(f, p); auto v3 = arg_short(f, p); double v4 = arg_double(f, p); auto v5 = arg_int(f, p); long long v6 = arg_long(f, p); auto v7 = arg_short(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7); }
	case 138: { float v0 = arg_float(f, p); float v1 = arg_float(f, p); auto v2 = arg_int(f, p); auto v3 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 139: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); float v2 = arg_float(f, p); auto v3 = arg_int(f, p); auto v4 = arg_int(f, p); double v5 = arg_double(f, p); float v6 = arg_float(f, p); float v7 = arg_float(f, p); auto v8 = arg_int(f, p); auto v9 = arg_int(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 140: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); float v2 = arg_float(f, p); float v3 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3) : nullcRunFunction(name, v0, v1, v2, v3); }
	case 141: { auto v0 = arg_int(f, p); auto v1 = arg_int(f, p); auto v2 = arg_int(f, p); float v3 = arg_float(f, p); float v4 = arg_float(f, p); double v5 = arg_double(f, p); auto v6 = arg_int(f, p); auto v7 = arg_int(f, p); float v8 = arg_float(f, p); float v9 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9); }
	case 142: { double v0 = arg_double(f, p); long long v1 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 143: { auto v0 = arg_int(f, p); double v1 = arg_double(f, p); long long v2 = arg_long(f, p); double v3 = arg_double(f, p); double v4 = arg_double(f, p); long long v5 = arg_long(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 144: { float v0 = arg_float(f, p); double v1 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1) : nullcRunFunction(name, v0, v1); }
	case 145: { auto v0 = arg_int(f, p); float v1 = arg_float(f, p); double v2 = arg_double(f, p); double v3 = arg_double(f, p); float v4 = arg_float(f, p); double v5 = arg_double(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5); }
	case 146: { auto v0 = arg_short(f, p); auto v1 = arg_short(f, p); auto v2 = arg_short(f, p); float v3 = arg_float(f, p); float v4 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4) : nullcRunFunction(name, v0, v1, v2, v3, v4); }
	case 147: { auto v0 = arg_int(f, p); auto v1 = arg_short(f, p); auto v2 = arg_short(f, p); auto v3 = arg_short(f, p); float v4 = arg_float(f, p); float v5 = arg_float(f, p); double v6 = arg_double(f, p); auto v7 = arg_short(f, p); auto v8 = arg_short(f, p); auto v9 = arg_short(f, p); float v10 = arg_float(f, p); float v11 = arg_float(f, p); return fp ? nullcCallFunction(*fp, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11) : nullcRunFunction(name, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); }
	}
	return 0;
}
static const char *interopTypes =
"class S1 { int a; }\n"
"class S2 { int a; int b; }\n"
"class S3 { int a; int b; int c; }\n"
"class S4 { long a; }\n"
"class S5 { double a; }\n"
"class S6 { float a; }\n"
"class S7 { float a; float b; }\n"
"class S8 { float a; float b; float c; }\n"
"class S9 { float a; int b; }\n"
"class S10 { double a; double b; }\n"
"class S11 { long a; double b; }\n"
"class S12 { long a; int b; }\n"
"class S13 { char a; char b; }\n"
"class S14 { char a; short b; int c; }\n"
"class S15 { short a; }\n"
"class S16 { double a; float b; }\n"
"class S17 { int a; double b; }\n"
"class S18 { char a; double b; int c; }\n"
"class S19 { long a; long b; long c; long d; }\n"
"class S21 { bool a; char b; float c; }\n"
"class S25 { float a; float b; float c; float d; }\n"
"class S27 { float a; char b; short c; double d; }\n"
"class S28 { char a; }\n"
"class S29 { int a; long b; short c; }\n"
"class S32 { float a; float b; int c; int d; }\n"
"class S33 { int a; int b; float c; float d; }\n"
"class S34 { double a; long b; }\n"
"class S35 { float a; double b; }\n"
"class S36 { short a; short b; short c; float d; float e; }\n"
"\n";
static const char *interopFunctions =
"import hs;\n"
"void hcb(int sig, char[] args, auto ref f);\n"
"int hrun(char[] name, int x);\n"
"float S1:h0(char a0, double a1, int[] a2, float a3, S36 a4, S35 a5, short a6);\n"
"S16 h1(bool a0, char a1, short a2, short a3, int a4, int a5, char a6);\n"
"char h2(double a0, typeid a1, S29 ref a2, S12 a3, char a4, int ref(int) a5, int a6, S34 a7);\n"
"S28 ref h3(bool a0, S28 a1, double a2, int ref a3, S6 a4, S2 a5, auto[] a6, double a7, S28 ref a8, long a9, int[] a10, int ref a11, auto ref a12);\n"
"long h4(S18 a0);\n"
"float h5(float a0, S21 a1, auto ref a2, double a3, int[] a4);\n"
"bool S28:h6(long a0, int a1, char a2, char a3, short a4, long a5, bool a6, long a7, bool a8, int a9, short a10, bool a11);\n"
"float S11:h7();\n"
"bool h8(long a0, bool a1, short a2, long a3, short a4, int a5, short a6, bool a7, long a8, bool a9);\n"
"S14 h9(char a0, long a1, bool a2, typeid a3, char a4, int a5);\n"
"double h10(int[] a0, short a1, float a2, int a3, typeid a4, double a5, double a6, double a7, int[] a8, double a9, int a10);\n"
"S33 h11(float a0, double a1, double a2);\n"
"S5 h12(double a0, short a1, int a2, bool a3, float a4, float a5, char a6, float a7, double a8, int a9, float a10, int a11);\n"
"S34 h13(S34 a0, S16 a1, S15 a2, S19 a3, S34 a4, S33 a5, S12 a6, S11 a7);\n"
"S28 S35:h14();\n"
"S13 h15(double a0, bool a1, float a2);\n"
"S3 h16(int ref(int) a0, long a1, short a2, bool a3, S35 a4, S3 a5);\n"
"double h17(float a0, double a1);\n"
"void h18(S33 a0, S35 a1, S18 a2, S11 a3, S17 a4, S33 a5, S16 a6, S34 a7);\n"
"S9 h19(S16 a0, S18 a1, S4 a2, S19 a3, S19 a4, S15 a5, S19 a6, S35 a7);\n"
"S18 S15:h20(S27 a0, S11 a1, S12 a2, S28 a3, S17 a4, S18 a5);\n"
"S36 h21(double a0, double a1, double a2);\n"
"short h22(int a0, S14 a1, char a2, int a3, double a4, int a5, double[] a6, int ref a7, double a8, int a9, char a10);\n"
"void h23(S15 a0, S10 a1, S28 a2, S21 a3, S14 a4, S11 a5, S3 a6, S1 a7);\n"
"S25 h24();\n"
"void h25(double a0, int a1, float a2, double a3, double a4, bool a5, short a6, bool a7, int a8, int a9, bool a10, double a11, float a12);\n"
"S2 h26(S2 a0, S11 a1, S36 a2, S36 a3);\n"
"short h27(float a0, short a1);\n"
"double S10:h28(float a0, float a1, float a2, double a3, float a4, float a5, double a6, double a7, double a8, float a9);\n"
"char h29(double a0, bool a1, bool a2, char a3, short a4, float a5, char a6, double a7, long a8, char a9, short a10, short a11, float a12);\n"
"short h30(S3 a0, S12 a1);\n"
"double h31(double a0, float a1, float a2, float a3, double a4, double a5, double a6, float a7, float a8, double a9, float a10, double a11);\n"
"short h32(short a0);\n"
"void h33(short a0);\n"
"int h34(auto[] a0, auto[] a1, short a2, S9 a3, S15 a4, int a5, S8 ref a6, S18 a7, double a8, S10 ref a9, double a10, char a11, int a12);\n"
"S14 h35(S11 a0, S11 a1, S32 a2, S9 a3, S34 a4, S35 a5, S7 a6, S28 a7);\n"
"S5 h36(float a0, float a1, double a2, float a3, int a4, bool a5, float a6, float a7, char a8, double a9, char a10, char a11, short a12, char a13);\n"
"void h37(double a0, double a1, int a2, int ref a3, S34 a4);\n"
"double h38(double a0, float a1, float a2, double a3, float a4, double a5, float a6, double a7, float a8, float a9, double a10);\n"
"bool h39(auto ref a0, int ref a1, short a2, int ref a3, int ref(int) a4, S2 a5);\n"
"S16 h40(S16 a0, S11 a1, S17 a2, S5 a3, S3 a4, S19 a5);\n"
"S36 h41(long a0, long a1, bool a2, long a3, bool a4, bool a5, short a6, double a7);\n"
"void S19:h42(bool a0, S1 a1, int[] a2, int ref(int) a3, int a4, int a5, S25 a6, typeid a7, float a8, S12 a9);\n"
"double h43(long a0, int a1, bool a2, double a3, int a4, S34 a5, S11 ref a6);\n"
"float h44(bool a0, int a1, long a2, bool a3, float a4, long a5, float a6, char a7, bool a8, char a9);\n"
"double h45(double a0);\n"
"S29 h46(S11 a0, S4 a1, S10 a2);\n"
"char h47(double a0, int a1, long a2, int a3, char a4, typeid a5, float a6, int a7, int a8);\n"
"double h48();\n"
"S25 h49(float a0, bool a1, short a2, long a3, char a4, bool a5, long a6, char a7, long a8, bool a9, bool a10, double a11, int a12, long a13);\n"
"S18 h50(S21 a0, S4 a1, S18 a2);\n"
"S11 h51(S11 a0, S4 a1, S29 a2, S10 a3, S32 a4, S6 a5, S33 a6, S14 a7);\n"
"char h52(int ref a0, S2 a1, int a2, float a3, S4 a4, S18 a5, short a6, char a7, auto[] a8, double[] a9, bool a10, int a11);\n"
"S7 ref h53(double[] a0, short a1, bool a2, int[] a3, bool a4, int a5, S7 ref a6, double[] a7);\n"
"float h54(double a0, double a1, float a2, float a3, float a4, double a5, float a6, double a7);\n"
"S19 h55(S19 a0);\n"
"S21 S16:h56(double a0, double a1, float a2, float a3, double a4);\n"
"S4 S16:h57(long a0, int ref(int) a1, S27 a2, typeid a3, double[] a4, S14 ref a5, auto ref a6, long a7, auto ref a8, int ref(int) a9, long a10, S18 a11);\n"
"int h58(int a0, S11 ref a1, S33 a2, long a3, bool a4, short a5);\n"
"S10 h59(int a0, bool a1, char a2, bool a3, int a4, short a5, char a6, short a7, bool a8);\n"
"char h60(int a0, int a1, double a2, S14 a3, double a4, int a5, char a6);\n"
"float h61(float a0, float a1, float a2);\n"
"double h62(auto[] a0, S32 ref a1, double a2, int a3, S14 a4, S5 a5, int ref a6, long a7, char a8, bool a9);\n"
"S33 h63(auto[] a0, char a1, S13 ref a2, short a3, S33 ref a4, auto[] a5, int[] a6, typeid a7, float a8);\n"
"bool h64(bool a0, char a1, short a2, long a3, int a4, double a5, bool a6);\n"
"double h65(double a0, float a1, double a2, float a3, float a4);\n"
"int S8:h66(int a0, typeid a1, double a2, double a3, double a4, auto[] a5, long a6, S10 ref a7, double a8, S13 ref a9, float a10, int ref a11);\n"
"S2 h67(S2 a0, int a1);\n"
"float h68();\n"
"S4 h69(S27 a0, int ref(int) a1, char a2, double[] a3, char a4, int ref(int) a5, S10 a6, int a7);\n"
"S12 h70(int a0, char a1, double a2, float a3, short a4, double a5, long a6, double a7, long a8, short a9);\n"
"S14 h71(double a0, float a1, short a2, long a3, long a4, short a5, char a6, bool a7, short a8, short a9, long a10, char a11);\n"
"S21 h72(S18 a0, S4 a1, S25 a2, S36 a3, S35 a4, S21 a5, S4 a6, S16 a7);\n"
"S34 S33:h73(typeid a0, double a1, double a2, long a3, short a4, S28 ref a5, char a6, double a7, short a8, int a9);\n"
"S34 S14:h74(S34 a0, S28 a1);\n"
"S12 h75(int ref a0, short a1, S28 a2);\n"
"bool h76();\n"
"void S34:h77(int a0, double a1, double a2, int a3, double a4, int a5, auto[] a6, int a7, long a8);\n"
"bool h78(long a0, int a1, int a2, short a3, short a4, bool a5, bool a6, long a7, long a8, char a9, int a10, bool a11, int a12, long a13);\n"
"S5 h79(S15 a0, S12 a1, S34 a2, S36 a3, S5 a4, S17 a5, S36 a6, S34 a7);\n"
"short h80(long a0, short a1, short a2, long a3, short a4, short a5, char a6, int a7, int a8, long a9);\n"
"void h81(S9 a0);\n"
"long h82(long a0, long a1, long a2, long a3, int a4, char a5, short a6, long a7, int a8, int a9, bool a10, char a11);\n"
"void h83(S33 a0, S33 a1, S8 a2, S4 a3, S3 a4, S27 a5);\n"
"float h84(bool a0);\n"
"S15 h85(S29 a0);\n"
"long h86(long a0);\n"
"S11 h87(bool a0, long a1, S32 a2, float a3);\n"
"short S9:h88(double a0, float a1, double a2, double a3, double a4, double a5);\n"
"S5 h89(short a0, int a1, S15 ref a2, auto ref a3, char a4, float a5, auto ref a6, long a7, S27 a8, int ref(int) a9, int a10);\n"
"long S36:h90(short a0, bool a1, char a2, short a3, int a4, long a5, long a6, short a7, long a8, int a9);\n"
"S27 S6:h91(long a0, bool a1, int ref a2, int a3, int a4, long a5, S10 ref a6, char a7, bool a8, long a9, S10 a10);\n"
"S3 h92();\n"
"S10 h93(int a0, S10 a1);\n"
"bool h94(float a0, float a1, int a2, double a3, bool a4);\n"
"float h95(char a0, char a1, bool a2, long a3, bool a4, bool a5, bool a6, float a7);\n"
"float h96(short a0, S5 a1, auto ref a2, char a3, int ref a4, double[] a5, S27 a6, bool a7, float a8, typeid a9, double[] a10);\n"
"S5 S34:h97(float a0, bool a1, double a2, double a3, double a4, short a5, float a6, float a7, bool a8, int a9, long a10, long a11);\n"
"double[] h98(int a0, int a1, int ref(int) a2, S35 ref a3, S11 a4, float a5, S6 ref a6, double[] a7, typeid a8, S7 ref a9);\n"
"int ref(int) h99(int ref(int) a0, double[] a1);\n"
"S12 h100(int a0, float a1, int a2);\n"
"S33 h101(double a0);\n"
"int ref(int) h102(double a0, long a1, int[] a2, int ref(int) a3, bool a4, double[] a5, auto[] a6, char a7, int ref(int) a8, S9 ref a9, float a10, bool a11, S21 a12);\n"
"S5 h103(int a0, bool a1);\n"
"char h104(long a0, char a1, short a2, short a3, bool a4, char a5, char a6);\n"
"float h105(bool a0, long a1, float a2);\n"
"double h106(bool a0, double a1, S35 a2, S2 a3, S33 a4, float a5);\n"
"long h107(char a0, int a1, char a2, short a3, long a4, short a5, long a6, long a7, int a8, int a9);\n"
"int S9:h108(int a0, bool a1);\n"
"S28 h109();\n"
"void h110(short a0, short a1, S4 a2, S25 ref a3, int a4, S14 a5, bool a6, auto ref a7, float a8, S32 ref a9, bool a10, S8 ref a11, char a12);\n"
"short h111(long a0, short a1, int a2, int a3, short a4, int a5, int a6);\n"
"double h112(S12 ref a0, double a1, char a2, long a3, double a4);\n"
"S32 h113(double a0, double a1, float a2, double a3, double a4, double a5, double a6, float a7, float a8);\n"
"bool h114(bool a0, char a1, float a2, int a3, double a4, int a5, bool a6, float a7, short a8, long a9, int a10, long a11);\n"
"short h115(int a0, char a1, char a2, short a3, long a4, int a5, short a6, long a7);\n"
"float S8:h116(float a0, bool a1, long a2, float a3, bool a4, short a5, long a6, float a7, long a8, char a9, long a10, bool a11, float a12);\n"
"S35 h117(float a0, double a1, float a2, double a3);\n"
"S15 S35:h118(S34 a0, S3 a1, S21 a2, S35 a3, S32 a4, S8 a5, S6 a6, S2 a7);\n"
"void h119(float a0, double a1, float a2, double a3, float a4, float a5, float a6, double a7, float a8, double a9);\n"
"double h120(float a0, float a1, float a2, double a3, double a4, double a5, double a6, float a7, float a8);\n"
"S16 h121(float a0, float a1, float a2, double a3);\n"
"float h122(float a0, long a1, bool a2, long a3, bool a4, long a5, short a6, float a7);\n"
"float h123(float a0, float a1, float a2, float a3, float a4);\n"
"S1 S21:h124(S34 a0, S27 a1, S7 a2, S4 a3, S13 a4, S19 a5, S1 a6, S19 a7);\n"
"double h125(double a0, double a1, float a2);\n"
"S8 h126(S15 a0, S2 a1, S8 a2, S19 a3, S32 a4, S10 a5, S8 a6, S18 a7);\n"
"long h127(float a0, long a1);\n"
"S36 h128(char a0, bool a1, bool a2, int a3, bool a4, long a5, char a6, bool a7, char a8, bool a9, char a10, short a11);\n"
"S13 S19:h129(S16 a0, S33 a1, S5 a2, S15 a3, S35 a4, S21 a5, S7 a6, S8 a7);\n"
"S12 S8:h130(double a0, bool a1, int a2, double a3, bool a4, double a5, bool a6, int a7);\n"
"S4 h131(S4 a0, S35 a1, S15 a2, S15 a3, S28 a4, S35 a5, S34 a6, S4 a7);\n"
"short h132(S28 a0, S5 ref a1, int[] a2, char a3, S21 a4, short a5, auto[] a6);\n"
"int ref h133(auto[] a0, int ref a1, double a2);\n"
"S35 h134(S11 a0, float a1, int a2, S1 a3, int a4, char a5, float a6, double[] a7, S16 a8, S27 ref a9);\n"
"S16 h135(double[] a0, long a1, int[] a2, long a3, float a4, int a5, S13 ref a6, double[] a7);\n"
"S13 h136(int a0, short a1);\n"
"int h137(double[] a0, int a1, float a2);\n"
"void h138(S28 a0, S35 a1, S3 a2, S34 a3, S18 a4, S2 a5, S3 a6, S35 a7);\n"
"S8 h139();\n"
"S5 h140(S5 a0, S3 a1, S16 a2, S6 a3, S16 a4);\n"
"S25 S25:h141(S17 a0, int ref a1);\n"
"S10 h142(short a0, double[] a1, auto ref a2, double[] a3, S4 ref a4, short a5);\n"
"float h143(long a0, long a1, short a2);\n"
"float h144(float a0, float a1, double a2, float a3, double a4, float a5, double a6, float a7, float a8, float a9, float a10, double a11, double a12, double a13);\n"
"S36 h145(float a0, double a1, float a2);\n"
"S5 h146(bool a0);\n"
"long h147(short a0, long a1, int a2, long a3, bool a4, int a5, bool a6, bool a7, short a8, bool a9, int a10, char a11, char a12);\n"
"typeid h148(double a0, float a1, double[] a2, typeid a3, int a4, long a5, long a6, S10 a7, int a8, S5 ref a9, int ref a10, S15 a11, float a12);\n"
"S25 h149(S35 a0, S4 a1, S19 a2, S27 a3, S25 a4, S28 a5, S1 a6, S2 a7);\n"
"S21 h150(short a0, float a1);\n"
"S11 h151(float a0, double a1);\n"
"S6 h152(float a0, double a1);\n"
"S2 S12:h153(double a0, short a1, double a2, double a3, int a4, S16 ref a5, int a6);\n"
"S9 h154(long a0, int a1);\n"
"double h155(double a0, double a1, long a2);\n"
"S9 h156(char a0, bool a1, long a2);\n"
"short S36:h157(long a0);\n"
"S9 S34:h158(int a0, bool a1, short a2);\n"
"void h159(double a0);\n"
"S3 h160();\n"
"S3 h161(S3 a0, S6 a1, S19 a2);\n"
"char S7:h162(int ref(int) a0, S3 a1, double[] a2, char a3, bool a4);\n"
"int ref(int) h163(int ref(int) a0);\n"
"double h164(bool a0, float a1, auto ref a2, S28 ref a3, int a4, short a5, S5 a6, double a7, S3 a8);\n"
"void S10:h165(int a0, char a1);\n"
"S19 h166(S19 a0, S35 a1);\n"
"void h167(double a0, double a1);\n"
"S8 h168(float a0, typeid a1, double a2, double a3, char a4, long a5, int ref a6, int[] a7);\n"
"short S11:h169(short a0, char a1, double a2, S4 a3, S10 a4, typeid a5, bool a6, S17 ref a7, float a8);\n"
"short S13:h170(short a0, char a1);\n"
"S3 h171(float a0, double a1, float a2, double a3, double a4, double a5, float a6, double a7);\n"
"S4 h172(auto ref a0, S29 a1, S4 a2);\n"
"bool h173(int a0, bool a1, char a2, bool a3, int a4, char a5, int a6, bool a7, short a8, int a9, short a10, short a11, int a12, char a13);\n"
"auto[] h174(short a0, auto[] a1);\n"
"short h175(long a0, bool a1, bool a2, bool a3, int a4, long a5, int a6, int a7, bool a8, bool a9, int a10, char a11);\n"
"S19 h176(S19 a0);\n"
"S28 h177(S2 a0, S34 a1, S1 a2, S7 a3, S25 a4, S21 a5, S34 a6, S18 a7);\n"
"S3 h178();\n"
"S17 h179(S14 a0, short a1, float a2, int ref(int) a3, float a4, long a5, S17 a6, S2 ref a7, typeid a8, auto[] a9, S36 a10, double a11, S4 a12, S27 ref a13);\n"
"void h180(typeid a0, double[] a1);\n"
"char S15:h181(bool a0, double a1, char a2, double a3, int a4, int a5, int a6, float a7, long a8, short a9, char a10);\n"
"S15 h182(bool a0, char a1, float a2, char a3, long a4, bool a5, char a6, short a7, long a8, double a9);\n"
"float h183(float a0);\n"
"int h184(int a0);\n"
"S1 S34:h185(S1 a0, S6 a1, S27 a2);\n"
"bool S4:h186(double a0);\n"
"int h187(double a0);\n"
"S8 h188();\n"
"S10 h189(S21 a0, S15 a1, S7 a2);\n"
"long h190(double a0, double a1, float a2, float a3, float a4, double a5, float a6, float a7, float a8, double a9, float a10, float a11, double a12);\n"
"long h191(double a0, S4 ref a1, double a2, auto ref a3, bool a4, char a5, float a6, int ref a7);\n"
"char h192(char a0, typeid a1, int a2, short a3, S29 a4, int a5, double a6, int a7, double a8, double a9, int a10);\n"
"double h193(double a0, double a1, double a2, double a3, double a4, float a5);\n"
"short h194();\n"
"int h195(double a0, int a1, double a2, int a3, double a4, bool a5, long a6, int a7, short a8, bool a9, float a10, int a11);\n"
"float h196(int a0, int a1, auto[] a2);\n"
"double h197(double a0, double a1);\n"
"float h198(float a0, float a1, double a2);\n"
"S32 h199();\n"
"S25 h200(auto ref a0, auto[] a1, bool a2);\n"
"S19 h201(S34 a0, S19 a1);\n"
"double S25:h202(bool a0);\n"
"short h203(int[] a0, float a1, int ref(int) a2, short a3, long a4, typeid a5, S9 a6, S3 ref a7, S32 a8, float a9, int ref a10, S27 ref a11, int a12);\n"
"long h204(S6 a0, int ref(int) a1, short a2, typeid a3, auto ref a4, char a5, S8 a6, int ref a7, bool a8, long a9, auto[] a10, float a11, int a12);\n"
"bool S8:h205(long a0, char a1, int a2);\n"
"long S6:h206(char a0, long a1, char a2, double a3);\n"
"char h207();\n"
"S14 h208(long a0, auto ref a1, S1 a2);\n"
"void h209(int a0, bool a1, char a2, int a3, bool a4, int a5, int a6, int a7, long a8, int a9);\n"
"short h210(char a0, float a1, long a2, short a3, long a4, float a5, float a6, bool a7, short a8, long a9, long a10, float a11);\n"
"float S4:h211(short a0, float a1, double a2, long a3, long a4, float a5, short a6, bool a7, double a8);\n"
"bool h212(float a0, float a1, double a2);\n"
"S29 h213(S10 a0, S33 a1, S21 a2, S9 a3, S28 a4, S33 a5, S29 a6, S18 a7);\n"
"double S27:h214(float a0, double a1);\n"
"long h215(char a0, S16 a1, int a2, short a3, char a4, short a5, int[] a6, double a7, char a8, double a9, int a10, double a11, int a12);\n"
"void h216(short a0);\n"
"S8 S34:h217(double a0, S4 a1, int a2, double a3, short a4, double[] a5, S9 a6, float a7, S12 a8);\n"
"char h218(int a0, double a1, char a2, int a3, int a4, long a5, int a6, double a7, int a8, double a9, S18 a10, S27 a11, double a12, double a13);\n"
"S13 h219(S1 a0, S15 a1, int a2, S19 ref a3, double a4, int a5, S13 a6, long a7, int a8);\n"
"float h220(double a0, double a1, float a2, double a3, double a4, float a5, float a6, double a7, double a8, double a9, double a10);\n"
"void h221(float a0, double a1);\n"
"void h222(S29 a0, S21 a1, long a2, S11 a3, int a4, S14 ref a5, S5 a6, int a7, bool a8, bool a9, bool a10, long a11, S25 ref a12);\n"
"S3 h223(float a0, double a1, float a2);\n"
"S33 h224(double a0, int a1, double a2, short a3);\n"
"int h225(int a0, long a1, char a2, char a3, int a4, char a5, bool a6, long a7, char a8, long a9, short a10, long a11, bool a12, short a13);\n"
"S18 h226(S4 a0, auto ref a1, float a2, auto ref a3, auto ref a4);\n"
"double h227(double a0, float a1, double a2);\n"
"S8 h228();\n"
"S10 S10:h229(S5 a0, S1 a1, S29 a2, S10 a3);\n"
"long h230(float a0, float a1, char a2, long a3, double a4, float a5, bool a6, float a7, float a8, char a9, bool a10, float a11, char a12);\n"
"long S18:h231(int a0, bool a1, long a2, int a3, short a4, short a5, long a6);\n"
"float h232(long a0, long a1, S9 a2, int a3, float a4, auto ref a5, int[] a6, S3 a7, double[] a8, float a9, double a10, auto[] a11);\n"
"S28 S13:h233();\n"
"long h234(double a0, float a1, float a2, double a3, float a4, float a5, double a6, double a7);\n"
"void h235(S29 a0, S3 a1, S6 a2, S16 a3, S35 a4, S27 a5, S21 a6, S32 a7);\n"
"float S3:h236();\n"
"long h237(long a0, bool a1, int a2);\n"
"short h238(S2 a0, short a1);\n"
"double h239(double a0, float a1, float a2, double a3, double a4, double a5, double a6, float a7, float a8, double a9, double a10);\n"
"double S9:h240(float a0, double a1);\n"
"S13 S14:h241(float a0);\n"
"S9 S3:h242(double a0, int a1, int[] a2, auto[] a3, S18 a4, short a5, double a6);\n"
"S3 h243();\n"
"int h244(S5 a0);\n"
"void h245(S8 a0, S3 a1, S14 a2, S1 a3);\n"
"int h246(double a0, int a1, S6 a2, S5 ref a3, double a4, float a5, double a6, S35 a7, float a8, double a9);\n"
"float h247(float a0, float a1, double a2, double a3, float a4, double a5, double a6, float a7, float a8, float a9, float a10, float a11, double a12);\n"
"int S25:h248(char a0, long a1);\n"
"double S12:h249(typeid a0, long a1, S2 a2, int a3, long a4, double a5, char a6);\n"
"short h250(short a0, int a1, bool a2, long a3, int a4, char a5, long a6);\n"
"void h251(int a0, auto[] a1, double a2, int a3, S35 a4, int a5, S32 a6, char a7, double a8, double a9, S32 a10, double a11);\n"
"S12 h252(S12 a0, int ref(int) a1, char a2, double a3, S29 a4, typeid a5);\n"
"void h253(bool a0, double[] a1, int a2, int ref(int) a3);\n"
"S15 h254(S15 a0, int a1, auto ref a2, int a3, int a4, double a5, char a6, int[] a7, double a8, char a9, char a10, double[] a11, int a12, int a13);\n"
"char S8:h255(float a0, float a1, float a2, double a3, float a4, double a5, float a6, double a7);\n"
"bool h256(long a0, double a1, int a2, bool a3, double a4);\n"
"double h257(float a0, double a1, double a2, double a3);\n"
"S19 h258(float a0, float a1, double a2);\n"
"long S27:h259(float a0, long a1);\n"
"double h260(double a0);\n"
"S32 h261(S7 a0, S3 a1, S32 a2, S34 a3, S14 a4, S28 a5, S21 a6, S14 a7);\n"
"S13 h262(float a0, char a1, float a2, S36 a3);\n"
"short h263(bool a0, bool a1, float a2, short a3, short a4, long a5, double a6);\n"
"S21 h264(char a0, bool a1, long a2, long a3, double a4, int a5);\n"
"char S1:h265(int ref(int) a0, auto[] a1, S14 a2, char a3, S33 a4, typeid a5, short a6, S16 a7, int[] a8, auto[] a9, int ref(int) a10, bool a11, S25 a12);\n"
"S1 h266(long a0, bool a1, bool a2, S17 a3, S27 ref a4, double a5, double a6, long a7);\n"
"short S9:h267(int a0, double a1, int a2, int a3, char a4, short a5, short a6, int a7, double a8, char a9);\n"
"long h268(long a0, int[] a1, int ref(int) a2, char a3);\n"
"S33 h269(S29 a0, S33 a1, short a2);\n"
"void h270(double a0, float a1);\n"
"double h271(float a0, double a1, float a2, double a3, float a4, double a5, float a6, float a7, float a8, float a9, float a10, float a11, double a12, double a13);\n"
"S13 S5:h272(int a0);\n"
"S28 S16:h273(double[] a0);\n"
"S33 S10:h274(short a0, char a1, char a2, float a3, double a4, double a5, double a6, long a7);\n"
"void h275();\n"
"long h276(bool a0, double a1, short a2, S13 ref a3, int ref a4, int ref a5, short a6, bool a7, long a8, double a9);\n"
"char h277();\n"
"S25 h278(S29 a0, S8 a1, S7 a2, S7 a3, S13 a4, S25 a5, S28 a6, S17 a7);\n"
"float h279(double a0, float a1, double a2, float a3, double a4, float a5, double a6, float a7, double a8, double a9, float a10, float a11, double a12);\n"
"double S19:h280(double a0, int ref a1, int a2, S14 a3, long a4, bool a5, long a6, S17 a7, int a8, double[] a9, S13 ref a10);\n"
"S9 S17:h281(auto ref a0, char a1, S10 a2, int ref a3, float a4, S9 a5, S27 a6, short a7, S34 a8, float a9);\n"
"void h282(double a0);\n"
"float S28:h283(float a0);\n"
"void h284(char a0, char a1, bool a2, char a3, short a4, bool a5, short a6, bool a7, int a8, short a9, int a10, long a11, int a12);\n"
"int ref h285(char a0, int ref(int) a1, S9 a2, int ref a3, S10 a4);\n"
"S33 h286(S16 a0, S16 a1, S32 a2, S16 a3, S33 a4);\n"
"int h287();\n"
"float h288(char a0);\n"
"double S13:h289(double a0);\n"
"bool S2:h290(bool a0);\n"
"bool h291(bool a0, short a1, bool a2, int a3, long a4, char a5, int a6, int a7, int a8, bool a9, long a10);\n"
"S35 h292(S6 a0);\n"
"S7 h293(short a0, char a1, short a2, char a3, int a4, char a5, char a6, bool a7, char a8);\n"
"S13 h294(S13 a0);\n"
"short h295(S25 a0, S27 a1, S5 a2, S18 a3, S34 a4, S8 a5, S36 a6);\n"
"float h296(S10 a0, short a1, S9 a2, short a3, short a4, float a5, S19 a6, S27 ref a7, int a8, S2 a9, double a10, short a11, int ref a12);\n"
"int[] h297(int[] a0, int a1);\n"
"int S35:h298(int a0);\n"
"S36 h299(double a0, int[] a1, double[] a2, double a3, int ref(int) a4, S36 a5, char a6);\n"
"short h300(double a0, S4 a1, S32 ref a2, float a3, typeid a4, double a5, int ref a6);\n"
"auto ref S14:h301(S11 a0, S25 a1, auto ref a2);\n"
"void h302(char a0, double a1, int a2, long a3, float a4, double a5, float a6, double a7);\n"
"void S15:h303();\n"
"int h304(S28 a0, int a1, double a2, long a3, auto[] a4, S21 a5, double a6, short a7, S8 a8, S13 a9, float a10);\n"
"int h305(S4 a0, char a1, short a2, int a3, int a4, S18 a5, double a6, int ref(int) a7, double a8);\n"
"S19 S32:h306(long a0, int a1, S19 a2, char a3, S29 a4);\n"
"S14 S32:h307(int a0);\n"
"long h308(S18 a0, bool a1, S15 a2, char a3, long a4, char a5);\n"
"void h309(long a0, bool a1, double a2, double a3, char a4);\n"
"double S4:h310(double a0);\n"
"S17 h311();\n"
"S32 h312(short a0, short a1, char a2, float a3, short a4, char a5, long a6, long a7);\n"
"float h313(S32 a0);\n"
"double h314(int a0, double a1, char a2, float a3, bool a4, int a5, int a6, char a7, long a8, double a9, char a10, double a11, long a12, double a13);\n"
"float h315(float a0, double a1, float a2, float a3, float a4, float a5, float a6, float a7, float a8);\n"
"long h316(char a0, long a1, int a2, short a3, int a4, bool a5);\n"
"S17 h317(S32 ref a0, bool a1, S32 ref a2);\n"
"S35 h318(S17 a0, S35 a1);\n"
"int ref(int) h319(int ref(int) a0, typeid a1, S36 a2, S5 a3, S18 a4, short a5, float a6, bool a7, double a8, long a9, int a10);\n"
"void S6:h320(float a0, long a1, typeid a2, short a3, float a4, short a5, bool a6, auto ref a7, short a8, char a9, long a10);\n"
"S9 h321(bool a0, short a1, char a2, double a3, int a4, int a5, short a6, double a7, long a8, float a9);\n"
"void S21:h322(int a0, short a1, short a2, long a3, short a4, int a5);\n"
"long h323();\n"
"S10 h324(S27 a0, S2 a1, S14 a2, S8 a3, S10 a4, S4 a5, S11 a6, S13 a7);\n"
"S34 h325(float a0, float a1, bool a2, float a3, double a4);\n"
"int h326(S18 a0, int a1);\n"
"S18 h327(S33 a0, long a1, S27 a2, double[] a3, float a4, double[] a5, int[] a6, S19 ref a7, long a8, typeid a9, char a10, S12 a11);\n"
"int h328(double a0, float a1, float a2);\n"
"int S35:h329(int a0, long a1, long a2);\n"
"bool h330(bool a0, long a1, bool a2);\n"
"auto[] h331(S36 a0, double[] a1, float a2, S29 a3, auto[] a4, int[] a5, S29 a6, S19 a7, short a8, short a9);\n"
"float S6:h332(float a0, float a1, double a2, double a3, double a4, float a5, double a6, float a7, float a8, double a9, float a10, double a11);\n"
"short S12:h333();\n"
"S27 h334();\n"
"float S10:h335(S2 a0, int ref a1, double[] a2, S21 a3, bool a4, S35 ref a5, long a6);\n"
"short h336(double[] a0, double[] a1, long a2, short a3, double a4, S36 ref a5);\n"
"S34 h337(S16 a0, S21 a1, S11 a2, S9 a3, S19 a4, S35 a5, S29 a6, S7 a7);\n"
"short h338(bool a0, char a1, short a2);\n"
"S13 S9:h339(float a0, double a1, bool a2, float a3);\n"
"long S12:h340(long a0, int a1, long a2, long a3, short a4, bool a5, long a6, short a7, long a8, bool a9);\n"
"S17 h341(int a0, int a1, long a2, bool a3);\n"
"S12 h342(long a0, char a1, S32 a2, short a3, S10 a4, double a5, bool a6, S10 a7, S10 a8, int ref a9, auto ref a10, int a11, short a12);\n"
"S8 h343(char a0, bool a1, long a2, char a3, long a4, long a5, char a6, double a7, float a8, int a9, char a10);\n"
"S19 h344(long a0, char a1, int a2, char a3, char a4, short a5, bool a6, bool a7, bool a8);\n"
"auto ref h345(int a0, bool a1, S32 ref a2, double a3, auto ref a4, short a5, S12 a6, auto ref a7);\n"
"bool h346(int ref(int) a0, short a1, int ref a2, int a3, S17 a4);\n"
"S12 S6:h347(S3 a0, S11 a1, S13 a2, S27 a3, S1 a4, S17 a5, S15 a6, S2 a7);\n"
"void S11:h348(int a0, bool a1);\n"
"void h349(short a0);\n"
"double h350(auto[] a0);\n"
"void h351(int[] a0, bool a1, double a2, char a3, auto[] a4, int[] a5, int ref(int) a6, int ref(int) a7, long a8, double a9, typeid a10, S11 a11);\n"
"S8 h352(S25 a0, S8 a1, S28 a2);\n"
"long h353(long a0, char a1, bool a2, double a3, bool a4, double a5, int a6);\n"
"S11 h354(float a0, double a1, double a2);\n"
"S17 h355(char a0, bool a1);\n"
"bool S33:h356(short a0, short a1, int a2, char a3, bool a4, int a5);\n"
"bool h357(float a0, double a1, double a2, double a3, float a4, float a5, float a6, float a7, double a8, float a9, double a10);\n"
"char h358(short a0, bool a1, auto[] a2, int[] a3, auto ref a4);\n"
"S8 ref h359(char a0, S8 ref a1);\n"
"S16 h360(S5 a0, S34 a1, S16 a2, S36 a3, S2 a4, S2 a5, S9 a6, S27 a7);\n"
"short h361(double a0, int a1, float a2, bool a3, double a4, bool a5, char a6, double a7, short a8, char a9, long a10, double a11);\n"
"S21 h362(float a0, double a1, float a2, float a3, S33 a4, S36 a5);\n"
"S7 h363(short a0, short a1, int a2, long a3);\n"
"S27 h364(int a0, int a1, S9 ref a2);\n"
"short h365(float a0, short a1);\n"
"S16 h366();\n"
"bool h367(bool a0);\n"
"short h368(S5 a0, S5 a1, short a2, int[] a3, S21 a4, bool a5, long a6, typeid a7, double a8, double[] a9, int ref(int) a10);\n"
"S36 S21:h369(float a0, long a1, S19 a2, double a3, S21 a4, double[] a5, long a6, long a7, S3 a8, S36 a9, auto[] a10);\n"
"float h370(double a0, bool a1, int a2, long a3, double a4, short a5, double a6);\n"
"int S10:h371(double a0, int a1, bool a2);\n"
"S32 h372(float a0, float a1, float a2, double a3, float a4, float a5, double a6, double a7, double a8);\n"
"S13 ref h373(int a0, S13 ref a1);\n"
"int h374(int a0, double a1, double[] a2, int a3, double a4, int a5, int a6, short a7, int a8, float a9, double a10, bool a11, int a12);\n"
"void h375(short a0, auto[] a1, float a2);\n"
"S12 h376(float a0, float a1, double a2);\n"
"void S16:h377(double a0, double a1);\n"
"void h378(short a0, long a1, long a2, int a3, short a4, bool a5, char a6);\n"
"char h379(double[] a0, S27 a1, double a2, float a3, S34 a4, float a5, int ref a6);\n"
"S36 h380(char a0, short a1, float a2, char a3, double a4, long a5, short a6, char a7, long a8, int a9);\n"
"S10 h381(float a0, float a1);\n"
"void h382(bool a0, char a1);\n"
"S1 h383(auto[] a0, char a1, double a2, int a3);\n"
"S15 h384(S35 ref a0, S1 ref a1, S17 a2, S10 ref a3, short a4);\n"
"short h385(short a0, bool a1, char a2);\n"
"S3 h386(S32 a0, S9 a1, typeid a2, float a3, int a4);\n"
"S10 h387(float a0, float a1, float a2, double a3, double a4, float a5, float a6, double a7, double a8, double a9);\n"
"bool h388(float a0, double a1, float a2, double a3, double a4, float a5, float a6);\n"
"long h389(int ref a0, S29 ref a1, S29 a2);\n"
"void h390(int ref a0, S32 a1, float a2, char a3);\n"
"bool h391(int a0, auto[] a1, typeid a2, bool a3, double[] a4, short a5, typeid a6, int a7, S10 a8, S12 ref a9, S16 ref a10, typeid a11, S13 ref a12, S32 a13);\n"
"bool S19:h392(short a0, bool a1);\n"
"short h393(bool a0, int a1, char a2, int a3, char a4, bool a5, bool a6, int a7, char a8, short a9, float a10, float a11, float a12);\n"
"float h394(bool a0, bool a1, float a2, char a3);\n"
"void h395(int a0, bool a1);\n"
"float h396(float a0, double a1, double a2, double a3, float a4, float a5, float a6, double a7);\n"
"int ref(int) h397(S27 a0, S4 ref a1, int[] a2, char a3, double a4, int a5, int ref a6, int ref(int) a7);\n"
"void h398(long a0, bool a1, bool a2, bool a3, short a4, long a5, short a6, char a7, short a8, char a9, bool a10, char a11, bool a12);\n"
"float h399(float a0, float a1, float a2);\n"
"S29 h400(double[] a0);\n"
"S12 h401(S18 a0, double[] a1, int a2, int a3, long a4, int a5, auto ref a6, S36 ref a7, int a8, int a9, float a10, int[] a11);\n"
"double h402(double a0, S36 a1, double a2, S2 a3, S6 a4, long a5, double a6);\n"
"void S19:h403(S8 a0, int a1);\n"
"S21 h404(int a0, short a1, int a2, long a3, int a4, long a5, bool a6, int a7, long a8);\n"
"S34 h405(S34 a0, S18 a1, S3 a2);\n"
"S8 S33:h406();\n"
"S18 h407(S18 a0, S19 a1, S17 a2, S29 a3, S5 a4, S7 a5, S18 a6, S28 a7);\n"
"double S13:h408(double a0, double a1);\n"
"float S13:h409(S4 a0);\n"
"S5 h410(char a0, float a1);\n"
"S7 h411(S35 a0, S28 a1, S6 a2, S11 a3, S15 a4, S17 a5, S1 a6);\n"
"long h412(long a0, int a1, bool a2, long a3, bool a4, bool a5, bool a6, char a7, char a8, int a9, int a10, int a11, int a12, bool a13);\n"
"short h413(S7 a0, S7 a1, bool a2, short a3, short a4, char a5, double a6, int a7, auto[] a8, double[] a9, S16 a10);\n"
"char h414(char a0, char a1, char a2, short a3, double a4, float a5, double a6, int a7, short a8);\n"
"S29 S28:h415();\n"
"float h416();\n"
"S21 h417();\n"
"void S33:h418(float a0, double a1, double a2);\n"
"int h419(S7 a0, S33 a1, S9 a2, typeid a3, bool a4, char a5, S27 ref a6, char a7);\n"
"S1 h420(S1 a0);\n"
"S1 h421(long a0, long a1, long a2, long a3, long a4, S1 a5, S1 a6);\n"
"S1 h422(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S1 a7, S1 a8);\n"
"S1 h423(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S1 a14);\n"
"S1 h424(S1 a0, int a1, S1 a2);\n"
"S2 h425(S2 a0);\n"
"S2 h426(long a0, long a1, long a2, long a3, long a4, S2 a5, S2 a6);\n"
"S2 h427(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S2 a7, S2 a8);\n"
"S2 h428(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S2 a14);\n"
"S2 h429(S2 a0, int a1, S2 a2);\n"
"S3 h430(S3 a0);\n"
"S3 h431(long a0, long a1, long a2, long a3, long a4, S3 a5, S3 a6);\n"
"S3 h432(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S3 a7, S3 a8);\n"
"S3 h433(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S3 a14);\n"
"S3 h434(S3 a0, int a1, S3 a2);\n"
"S4 h435(S4 a0);\n"
"S4 h436(long a0, long a1, long a2, long a3, long a4, S4 a5, S4 a6);\n"
"S4 h437(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S4 a7, S4 a8);\n"
"S4 h438(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S4 a14);\n"
"S4 h439(S4 a0, int a1, S4 a2);\n"
"S5 h440(S5 a0);\n"
"S5 h441(long a0, long a1, long a2, long a3, long a4, S5 a5, S5 a6);\n"
"S5 h442(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S5 a7, S5 a8);\n"
"S5 h443(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S5 a14);\n"
"S5 h444(S5 a0, int a1, S5 a2);\n"
"S6 h445(S6 a0);\n"
"S6 h446(long a0, long a1, long a2, long a3, long a4, S6 a5, S6 a6);\n"
"S6 h447(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S6 a7, S6 a8);\n"
"S6 h448(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S6 a14);\n"
"S6 h449(S6 a0, int a1, S6 a2);\n"
"S7 h450(S7 a0);\n"
"S7 h451(long a0, long a1, long a2, long a3, long a4, S7 a5, S7 a6);\n"
"S7 h452(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S7 a7, S7 a8);\n"
"S7 h453(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S7 a14);\n"
"S7 h454(S7 a0, int a1, S7 a2);\n"
"S8 h455(S8 a0);\n"
"S8 h456(long a0, long a1, long a2, long a3, long a4, S8 a5, S8 a6);\n"
"S8 h457(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S8 a7, S8 a8);\n"
"S8 h458(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S8 a14);\n"
"S8 h459(S8 a0, int a1, S8 a2);\n"
"S9 h460(S9 a0);\n"
"S9 h461(long a0, long a1, long a2, long a3, long a4, S9 a5, S9 a6);\n"
"S9 h462(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S9 a7, S9 a8);\n"
"S9 h463(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S9 a14);\n"
"S9 h464(S9 a0, int a1, S9 a2);\n"
"S10 h465(S10 a0);\n"
"S10 h466(long a0, long a1, long a2, long a3, long a4, S10 a5, S10 a6);\n"
"S10 h467(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S10 a7, S10 a8);\n"
"S10 h468(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S10 a14);\n"
"S10 h469(S10 a0, int a1, S10 a2);\n"
"S11 h470(S11 a0);\n"
"S11 h471(long a0, long a1, long a2, long a3, long a4, S11 a5, S11 a6);\n"
"S11 h472(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S11 a7, S11 a8);\n"
"S11 h473(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S11 a14);\n"
"S11 h474(S11 a0, int a1, S11 a2);\n"
"S12 h475(S12 a0);\n"
"S12 h476(long a0, long a1, long a2, long a3, long a4, S12 a5, S12 a6);\n"
"S12 h477(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S12 a7, S12 a8);\n"
"S12 h478(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S12 a14);\n"
"S12 h479(S12 a0, int a1, S12 a2);\n"
"S13 h480(S13 a0);\n"
"S13 h481(long a0, long a1, long a2, long a3, long a4, S13 a5, S13 a6);\n"
"S13 h482(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S13 a7, S13 a8);\n"
"S13 h483(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S13 a14);\n"
"S13 h484(S13 a0, int a1, S13 a2);\n"
"S14 h485(S14 a0);\n"
"S14 h486(long a0, long a1, long a2, long a3, long a4, S14 a5, S14 a6);\n"
"S14 h487(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S14 a7, S14 a8);\n"
"S14 h488(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S14 a14);\n"
"S14 h489(S14 a0, int a1, S14 a2);\n"
"S15 h490(S15 a0);\n"
"S15 h491(long a0, long a1, long a2, long a3, long a4, S15 a5, S15 a6);\n"
"S15 h492(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S15 a7, S15 a8);\n"
"S15 h493(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S15 a14);\n"
"S15 h494(S15 a0, int a1, S15 a2);\n"
"S16 h495(S16 a0);\n"
"S16 h496(long a0, long a1, long a2, long a3, long a4, S16 a5, S16 a6);\n"
"S16 h497(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S16 a7, S16 a8);\n"
"S16 h498(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S16 a14);\n"
"S16 h499(S16 a0, int a1, S16 a2);\n"
"S17 h500(S17 a0);\n"
"S17 h501(long a0, long a1, long a2, long a3, long a4, S17 a5, S17 a6);\n"
"S17 h502(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S17 a7, S17 a8);\n"
"S17 h503(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S17 a14);\n"
"S17 h504(S17 a0, int a1, S17 a2);\n"
"S18 h505(S18 a0);\n"
"S18 h506(long a0, long a1, long a2, long a3, long a4, S18 a5, S18 a6);\n"
"S18 h507(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S18 a7, S18 a8);\n"
"S18 h508(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S18 a14);\n"
"S18 h509(S18 a0, int a1, S18 a2);\n"
"S19 h510(S19 a0);\n"
"S19 h511(long a0, long a1, long a2, long a3, long a4, S19 a5, S19 a6);\n"
"S19 h512(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S19 a7, S19 a8);\n"
"S19 h513(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S19 a14);\n"
"S19 h514(S19 a0, int a1, S19 a2);\n"
"S21 h515(S21 a0);\n"
"S21 h516(long a0, long a1, long a2, long a3, long a4, S21 a5, S21 a6);\n"
"S21 h517(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S21 a7, S21 a8);\n"
"S21 h518(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S21 a14);\n"
"S21 h519(S21 a0, int a1, S21 a2);\n"
"S25 h520(S25 a0);\n"
"S25 h521(long a0, long a1, long a2, long a3, long a4, S25 a5, S25 a6);\n"
"S25 h522(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S25 a7, S25 a8);\n"
"S25 h523(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S25 a14);\n"
"S25 h524(S25 a0, int a1, S25 a2);\n"
"S27 h525(S27 a0);\n"
"S27 h526(long a0, long a1, long a2, long a3, long a4, S27 a5, S27 a6);\n"
"S27 h527(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S27 a7, S27 a8);\n"
"S27 h528(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S27 a14);\n"
"S27 h529(S27 a0, int a1, S27 a2);\n"
"S28 h530(S28 a0);\n"
"S28 h531(long a0, long a1, long a2, long a3, long a4, S28 a5, S28 a6);\n"
"S28 h532(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S28 a7, S28 a8);\n"
"S28 h533(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S28 a14);\n"
"S28 h534(S28 a0, int a1, S28 a2);\n"
"S29 h535(S29 a0);\n"
"S29 h536(long a0, long a1, long a2, long a3, long a4, S29 a5, S29 a6);\n"
"S29 h537(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S29 a7, S29 a8);\n"
"S29 h538(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S29 a14);\n"
"S29 h539(S29 a0, int a1, S29 a2);\n"
"S32 h540(S32 a0);\n"
"S32 h541(long a0, long a1, long a2, long a3, long a4, S32 a5, S32 a6);\n"
"S32 h542(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S32 a7, S32 a8);\n"
"S32 h543(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S32 a14);\n"
"S32 h544(S32 a0, int a1, S32 a2);\n"
"S33 h545(S33 a0);\n"
"S33 h546(long a0, long a1, long a2, long a3, long a4, S33 a5, S33 a6);\n"
"S33 h547(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S33 a7, S33 a8);\n"
"S33 h548(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S33 a14);\n"
"S33 h549(S33 a0, int a1, S33 a2);\n"
"S34 h550(S34 a0);\n"
"S34 h551(long a0, long a1, long a2, long a3, long a4, S34 a5, S34 a6);\n"
"S34 h552(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S34 a7, S34 a8);\n"
"S34 h553(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S34 a14);\n"
"S34 h554(S34 a0, int a1, S34 a2);\n"
"S35 h555(S35 a0);\n"
"S35 h556(long a0, long a1, long a2, long a3, long a4, S35 a5, S35 a6);\n"
"S35 h557(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S35 a7, S35 a8);\n"
"S35 h558(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S35 a14);\n"
"S35 h559(S35 a0, int a1, S35 a2);\n"
"S36 h560(S36 a0);\n"
"S36 h561(long a0, long a1, long a2, long a3, long a4, S36 a5, S36 a6);\n"
"S36 h562(double a0, double a1, double a2, double a3, double a4, double a5, double a6, S36 a7, S36 a8);\n"
"S36 h563(int a0, int a1, int a2, int a3, int a4, int a5, double a6, double a7, double a8, double a9, double a10, double a11, double a12, double a13, S36 a14);\n"
"S36 h564(S36 a0, int a1, S36 a2);\n"
"auto ref h565(auto ref a0);\n"
"auto ref h566(long a0, long a1, long a2, long a3, long a4, auto ref a5, auto ref a6);\n"
"auto ref h567(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long a8, long a9, long a10, long a11, auto ref a12, auto ref a13);\n"
"int[] h568(int[] a0);\n"
"int[] h569(long a0, long a1, long a2, long a3, long a4, int[] a5, int[] a6);\n"
"int[] h570(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long a8, long a9, long a10, long a11, int[] a12, int[] a13);\n"
"int ref(int) h571(int ref(int) a0);\n"
"int ref(int) h572(long a0, long a1, long a2, long a3, long a4, int ref(int) a5, int ref(int) a6);\n"
"int ref(int) h573(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long a8, long a9, long a10, long a11, int ref(int) a12, int ref(int) a13);\n"
"auto[] h574(auto[] a0);\n"
"auto[] h575(long a0, long a1, long a2, long a3, long a4, auto[] a5, auto[] a6);\n"
"auto[] h576(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long a8, long a9, long a10, long a11, auto[] a12, auto[] a13);\n"
"typeid h577(typeid a0);\n"
"typeid h578(long a0, long a1, long a2, long a3, long a4, typeid a5, typeid a6);\n"
"typeid h579(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long a8, long a9, long a10, long a11, typeid a12, typeid a13);\n"
"int ref h580(int ref a0);\n"
"int ref h581(long a0, long a1, long a2, long a3, long a4, int ref a5, int ref a6);\n"
"int ref h582(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, long a8, long a9, long a10, long a11, int ref a12, int ref a13);\n"
"\n";
