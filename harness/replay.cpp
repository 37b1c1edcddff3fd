// Concrete replay / bounded search against the real CAKE sources.
//   replay <mode> <seed> <ncases> <statefile>      generated cases
//   replay case "<case string>"                    one case
// Every case is a string "mode key=value ..."; a failing one is printed as
//   FAIL <case string> :: <what>
// and the exit status is 1.  Sanitizer aborts leave the running case in <statefile>.
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <random>
#include <cstdarg>
#include <cmath>
#include <limits>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <fcntl.h>
#include "cake.h"
typedef std::map<std::string,std::string> KV;
typedef std::mt19937 RNG;
static char* g_state = NULL;
static int ri(RNG& r, int a, int b) { return a + (int)(r() % (unsigned)(b - a + 1)); }
static std::string fmt(const char* f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static int gi(const KV& k, const char* n) { auto i = k.find(n); if(i == k.end()) { fprintf(stderr, "missing %s\n", n); exit(3); } return atoi(i->second.c_str()); }
static std::string gs(const KV& k, const char* n) { auto i = k.find(n); if(i == k.end()) { fprintf(stderr, "missing %s\n", n); exit(3); } return i->second; }
static enum sched sch_of(const std::string& s) { return s == "KMN" ? KMN : s == "MKN" ? MKN : s == "NKM" ? NKM : NA; }

static cake_cntx_t* mk_cntx(int mr, int nr, int L1, int L2, int L3, int ncores) {
	cake_cntx_t* c = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
	memset(c, 0, sizeof *c);
	c->alpha_n = 1.0; c->L1 = L1; c->L2 = L2; c->L3 = L3; c->ncores = ncores;
	c->peak_dram_bw = 32e9; c->peak_flops = 600e9;
	update_mr_nr(c, mr, nr);
	return c;
}
// exact-size heap copies: ASan red zones right behind the last element
struct Mat { float* p; long n; std::vector<float> orig;
	Mat(long n_) : n(n_) { if(posix_memalign((void**)&p, 64, n*sizeof(float) ? n*sizeof(float) : 4)) abort(); }
	void keep() { orig.assign(p, p + n); }
	bool same() { return n == 0 || !memcmp(orig.data(), p, n*sizeof(float)); }
	~Mat() { free(p); } };
// values of very different sizes, many of them cancelling
static void fill_real(RNG& r, Mat& m) { int e = ri(r, 0, 12); for(long i = 0; i < m.n; i++) m.p[i] = ldexpf((float) ri(r, -(1 << 23), 1 << 23), -23 + ri(r, -e, e)); m.keep(); }
static void fill_small(RNG& r, Mat& m) { for(long i = 0; i < m.n; i++) m.p[i] = (float) ri(r, -4, 4); m.keep(); }

// ---- which failures concern the property (VF_CLASSES; all of them when it is not set)
//   V wrong value   O operand modified   K packed operand modified   U result depends on memory never written
//   X another kernel than the context names   R resources   T tile sizes / schedule   P other plan fields   S reported sizes
static const char* g_classes = NULL;
static bool cls(char c) { return !g_classes || strchr(g_classes, c); }
static int g_mr = 0, g_nr = 0; static volatile int g_otherkernel = 0;
extern "C" void vf_kernel(int mr, int nr, int m, int n) { if(g_mr && (mr != g_mr || nr != g_nr || m != mr || n != nr)) g_otherkernel = mr*1000 + nr; }
#ifndef VF_TSAN
extern int vf_fill;
#else
static int vf_fill;
#endif
static std::vector<float>* g_out = NULL;

static std::string do_prod(const KV& c) {
	std::string api = gs(c, "api");
	int M = gi(c,"M"), N = gi(c,"N"), K = gi(c,"K"), p = gi(c,"p"), mr = gi(c,"mr"), nr = gi(c,"nr");
	int mc = gi(c,"mc"), kc = gi(c,"kc"), nc = gi(c,"nc"), pa = gi(c,"pa"), pb = gi(c,"pb"), beta = gi(c,"beta"), alpha = c.count("alpha") ? gi(c,"alpha") : 1;
	int L1 = gi(c,"L1"), L2 = gi(c,"L2"), L3 = gi(c,"L3"), ncores = gi(c,"ncores"), reps = gi(c,"reps"), own = gi(c,"own");
	int real = c.count("real") ? gi(c,"real") : 0;   // within the rounding bound instead of exact
	RNG r(gi(c,"seed"));
	cake_cntx_t* x = own ? NULL : mk_cntx(mr, nr, L1, L2, L3, ncores);
	std::string err;
	{
	Mat A((long)M*K), B((long)K*N), C((long)M*N);
	if(real) { fill_real(r, A); fill_real(r, B); } else { fill_small(r, A); fill_small(r, B); }
	std::vector<double> ref((size_t)M*N), sum(real ? (size_t)M*N : 0);
	for(int rep = 0; rep < reps && err.empty(); rep++) {
		for(long i = 0; i < C.n; i++) C.p[i] = beta ? real ? A.p[i % A.n] : (float) ri(r, -4, 4) : std::numeric_limits<float>::quiet_NaN();
		for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) ref[(size_t)i*N+j] = beta ? beta*(double)C.p[(long)i*N+j] : 0.0;
		for(int i = 0; i < M; i++) for(int k = 0; k < K; k++) { double a = alpha*(double)A.p[(long)i*K+k]; for(int j = 0; j < N; j++) ref[(size_t)i*N+j] += a*B.p[(long)k*N+j]; }
		if(real) for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) { double& t = sum[(size_t)i*N+j]; t = beta ? fabs((double)C.p[(long)i*N+j]) : 0.0;
			for(int k = 0; k < K; k++) t += fabs((double)A.p[(long)i*K+k]*B.p[(long)k*N+j]); }
		enum sched s = sch_of(api);
		if(!own) { g_mr = mr; g_nr = nr; g_otherkernel = 0; }
		if(api == "online") cake_sgemm_online(A.p, B.p, C.p, M, N, K, p, x, NULL, 0, 0, alpha, beta, KMN, mc, kc, nc);
		else if(api == "2d") cake_sgemm_2d(A.p, B.p, C.p, M, N, K, p, x, NULL, 0, 0, alpha, beta, KMN, mc, kc, nc);
		else if(!pa && !pb) cake_sgemm(A.p, B.p, C.p, M, N, K, p, x, NULL, 0, 0, alpha, beta, s, mc, kc, nc);
		else {
			blk_dims_t xd; memset(&xd, 0, sizeof xd);
			omp_set_num_threads(p);
			cake_cntx_t tmp = *x;
			init_block_dims(M, N, K, p, &xd, &tmp, s, NULL, 4, mc, kc, nc);
			size_t as = cake_sgemm_packed_A_size(M, K, p, &xd, x, xd.sch)/sizeof(float), bs = cake_sgemm_packed_B_size(K, N, p, &xd, x)/sizeof(float);
			Mat Ap(as), Bp(bs);
			if(pa) { pack_A(A.p, Ap.p, M, K, p, &xd, x, xd.sch); Ap.keep(); }
			if(pb) { pack_B(B.p, Bp.p, K, N, p, &xd, x, xd.sch); Bp.keep(); }
			cake_sgemm(pa ? Ap.p : A.p, pb ? Bp.p : B.p, C.p, M, N, K, p, x, NULL, pa, pb, alpha, beta, s, mc, kc, nc);
			if(pa && !Ap.same() && cls('K')) err = "packed A modified";
			if(pb && !Bp.same() && cls('K')) err = "packed B modified";
		}
		g_mr = 0;
		if(g_otherkernel && cls('X')) err = fmt("kernel %dx%d called (or with another tile shape), the context names %dx%d", g_otherkernel/1000, g_otherkernel%1000, mr, nr);
		if(g_out) g_out->insert(g_out->end(), C.p, C.p + C.n);
		for(int i = 0; i < M && err.empty() && cls('V'); i++) for(int j = 0; j < N; j++) {
			float g = C.p[(long)i*N+j]; double w = ref[(size_t)i*N+j];
			if(real) { double u = ldexp(1.0, -24)*(K+1), e = (u/(1-u) + K*ldexp(1.0, -50))*sum[(size_t)i*N+j];
				if(!(fabs((double) g - w) <= e)) { err = fmt("C[%d][%d]=%.9g want %.9g, off by %.3g, at most %.3g allowed (call %d)", i, j, g, w, fabs((double) g - w), e, rep+1); break; } }
			else if(!((double) g == w)) { err = fmt("C[%d][%d]=%g want %g (call %d)", i, j, g, w, rep+1); break; } }
		if(err.empty() && !A.same() && cls('O')) err = "A modified";
		if(err.empty() && !B.same() && cls('O')) err = "B modified";
	}
	}
	free(x);
	return err;
}

// the same multiply with different values in fresh memory has the same result, bit for bit
static std::string do_prod_u(const KV& c) {
	std::string e;
	if(!g_classes || !cls('U')) return do_prod(c);
	std::vector<float> o[2];
	for(int i = 0; i < 2 && e.empty(); i++) { g_out = &o[i]; vf_fill = i ? 0x41 : 0xff; e = do_prod(c); }
	g_out = NULL; vf_fill = -1;
	if(e.empty() && (o[0].size() != o[1].size() || memcmp(o[0].data(), o[1].data(), o[0].size()*sizeof(float)))) e = "the result depends on what was in freshly allocated memory";
	return e;
}

// ---- block plans -----------------------------------------------------------
static int cdiv(int a, int b) { return (a + b - 1)/b; }
#define RQ(cond) RQC('P', cond)
#define RQC(k, cond) do { if(cls(k) && !(cond)) return std::string("plan: !(" #cond ")") + fmt(" mc=%d kc=%d nc=%d m_c1=%d k_c1=%d n_c1=%d m1l=%d k1l=%d n1l=%d Mb=%d Kb=%d Nb=%d p_l=%d pm=%d pn=%d pm_l=%d pn_l=%d Mp=%d Np=%d", \
	x.m_c,x.k_c,x.n_c,x.m_c1,x.k_c1,x.n_c1,x.m_c1_last_core,x.k_c1_last_core,x.n_c1_last_core,x.Mb,x.Kb,x.Nb,x.p_l,x.pm,x.pn,x.pm_l,x.pn_l,x.M_padded,x.N_padded); } while(0)
// dimension split into whole blocks of c*cores, then an edge spread over pl cores (c1 each, c1l on the last)
static bool split_ok(int D, int cores, int c, int nb, int pad, int rem_units, int unit, int pl, int c1, int c1l) {
	int full = D/(cores*c), r = D - full*cores*c;
	if((pad != 0) != (r != 0)) return false;
	if(nb != full + (r ? 1 : 0)) return false;
	if(!r) return true;
	int ru = cdiv(r, unit);
	if(rem_units >= 0 && rem_units != ru) return false;
	if(pl < 1 || pl > cores) return false;
	if(c1 < 1 || c1 % unit || c1 > c + unit - 1) return false;
	if(c1l < 1 || c1l % unit || c1l > c1) return false;
	return (pl - 1)*c1 + c1l == ru*unit;
}
static bool edge_ok(int D, int c, int nb, int pad, int unit, int c1) {
	int full = D/c, r = D - full*c;
	return (pad != 0) == (r != 0) && nb == full + (r ? 1 : 0) && (!r || c1 == cdiv(r, unit)*unit);
}
static std::string do_plan(const KV& c) {
	int M = gi(c,"M"), N = gi(c,"N"), K = gi(c,"K"), p = gi(c,"p"), mr = gi(c,"mr"), nr = gi(c,"nr");
	int mc = gi(c,"mc"), kc = gi(c,"kc"), nc = gi(c,"nc");
	std::string api = gs(c,"api");
	cake_cntx_t* t = mk_cntx(mr, nr, gi(c,"L1"), gi(c,"L2"), gi(c,"L3"), gi(c,"ncores"));
	cake_cntx_t before = *t;
	blk_dims_t x; memset(&x, 0x5a, sizeof x);
	enum sched s = sch_of(api);
	if(api == "2d") init_block_dims_2d(M, N, K, p, &x, t, KMN, NULL, 4, mc, kc, nc);
	else init_block_dims(M, N, K, p, &x, t, s, NULL, 4, mc, kc, nc);
	bool keep = t->mr == before.mr && t->nr == before.nr && t->m_map == before.m_map && t->n_map == before.n_map &&
		t->L1 == before.L1 && t->L2 == before.L2 && t->L3 == before.L3 && t->ncores == before.ncores;
	cake_cntx_t cntx2 = *t;
	free(t);
	RQ(keep);
	bool user = mc && kc && nc;
	RQC('T', x.m_c >= mr && x.m_c % mr == 0); RQC('T', x.n_c >= nr && x.n_c % nr == 0); RQC('T', x.k_c >= 1);
	if(api == "2d") {
		RQ(x.sch == KMN); RQ(x.pm >= 1 && x.pn >= 1 && x.pm*x.pn <= p);
		if(user) RQC('T', x.k_c == kc);
		RQ(split_ok(M, x.pm, x.m_c, x.Mb, x.m_pad, x.mr_rem, mr, x.pm_l, x.m_c1, x.m_c1_last_core));
		RQ(split_ok(N, x.pn, x.n_c, x.Nb, x.n_pad, x.nr_rem, nr, x.pn_l, x.n_c1, x.n_c1_last_core));
		RQ(edge_ok(K, x.k_c, x.Kb, x.k_pad, 1, x.k_c1));
		RQ(!x.m_pad || x.m_c1 <= x.m_c); RQ(!x.n_pad || x.n_c1 <= x.n_c);
		return "";
	}
	if(s != NA) RQC('T', x.sch == s);
	RQC('T', x.sch == KMN || x.sch == MKN || x.sch == NKM);
	if(user) RQC('T', x.m_c == mc && x.k_c == kc && x.n_c == nc);
	RQ(edge_ok(N, x.n_c, x.Nb, x.n_pad, nr, x.n_c1)); RQ(x.N_padded == cdiv(N, nr)*nr);
	RQ(x.M_padded == cdiv(M, mr)*mr);
	if(x.sch == KMN) {
		RQ(split_ok(M, p, x.m_c, x.Mb, x.m_pad, x.mr_rem, mr, x.p_l, x.m_c1, x.m_c1_last_core));
		RQ(!x.m_pad || x.m_c1 <= x.m_c);
		RQ(edge_ok(K, x.k_c, x.Kb, x.k_pad, 1, x.k_c1));
	} else {
		RQ(split_ok(K, p, x.k_c, x.Kb, x.k_pad, -1, 1, x.p_l, x.k_c1, x.k_c1_last_core));
		RQ(!x.k_pad || (x.k_rem == K % (p*x.k_c) && x.k_c1 <= x.k_c));
		RQ(edge_ok(M, x.sch == MKN ? x.m_c : p*x.m_c, x.Mb, x.m_pad, mr, x.m_c1));
	}
	RQC('S', cake_sgemm_packed_A_size(M, K, p, &x, &cntx2, x.sch) == sizeof(float)*(size_t)x.M_padded*K);
	RQC('S', cake_sgemm_packed_B_size(K, N, p, &x, &cntx2) == sizeof(float)*(size_t)x.N_padded*K);
	RQC('S', cake_sgemm_packed_C_size(M, N, p, &x, &cntx2, x.sch) == sizeof(float)*(size_t)x.M_padded*x.N_padded);
	return "";
}

// ---- packing -----------------------------------------------------------------
// Every element of the source appears once in the packed buffer, everything else in it is zero.
static std::string once_and_zero(const float* buf, size_t n, long elems) {
	std::vector<int> seen(elems, 0);
	for(size_t i = 0; i < n; i++) {
		float v = buf[i];
		if(v == 0) continue;
		if(!(v == v)) return fmt("packed[%zu] never written", i);
		long e = (long) v - 1;
		if(e < 0 || e >= elems || (float)(e+1) != v) return fmt("packed[%zu]=%g is no element", i, v);
		if(seen[e]++) return fmt("element %ld packed twice (at %zu)", e, i);
	}
	for(long e = 0; e < elems; e++) if(!seen[e]) return fmt("element %ld not packed", e);
	return "";
}
static std::string do_pack(const KV& c) {
	std::string what = gs(c,"what"), api = gs(c,"api");
	int M = gi(c,"M"), N = gi(c,"N"), K = gi(c,"K"), p = gi(c,"p"), mr = gi(c,"mr"), nr = gi(c,"nr");
	int mc = gi(c,"mc"), kc = gi(c,"kc"), nc = gi(c,"nc"), blis = gi(c,"blis");
	enum sched s = sch_of(api);
	cake_cntx_t* t = mk_cntx(mr, nr, 32768, 1<<20, 8<<20, 4);
	blk_dims_t x; memset(&x, 0, sizeof x);
	omp_set_num_threads(p);
	init_block_dims(M, N, K, p, &x, t, s, NULL, 4, mc, kc, nc);
	std::string err;
	const float NaN = std::numeric_limits<float>::quiet_NaN();
	if(what == "A" || what == "B") {
		long rows = what == "A" ? M : K, cols = what == "A" ? K : N;
		Mat S(rows*cols);
		for(long i = 0; i < S.n; i++) S.p[i] = (float)(i + 1);
		S.keep();
		size_t n = (what == "A" ? cake_sgemm_packed_A_size(M, K, p, &x, t, s) : cake_sgemm_packed_B_size(K, N, p, &x, t))/sizeof(float);
		Mat P(n); for(size_t i = 0; i < n; i++) P.p[i] = NaN;
		if(what == "A") { if(blis) pack_A_single_buf_k_first_blis(S.p, P.p, M, K, p, &x, t); else pack_A(S.p, P.p, M, K, p, &x, t, s); }
		else { if(blis) pack_B_k_first_blis(S.p, P.p, K, N, &x, t); else pack_B(S.p, P.p, K, N, p, &x, t, s); }
		err = once_and_zero(P.p, n, S.n);
		if(err.empty() && !S.same()) err = "source modified";
	} else {
		Mat S((long)M*N), D((long)M*N);
		for(long i = 0; i < S.n; i++) { S.p[i] = (float)(i + 1); D.p[i] = NaN; }
		S.keep();
		size_t n = cake_sgemm_packed_C_size(M, N, p, &x, t, s)/sizeof(float);
		Mat P(n); for(size_t i = 0; i < n; i++) P.p[i] = NaN;
		pack_C(S.p, P.p, M, N, p, &x, t, s);
		err = once_and_zero(P.p, n, S.n);
		if(err.empty() && !S.same()) err = "source modified";
		P.keep();
		unpack_C(D.p, P.p, M, N, p, &x, t, s);
		for(long i = 0; i < S.n && err.empty(); i++) if(D.p[i] != S.p[i]) err = fmt("round trip: C[%ld]=%g want %g", i, D.p[i], S.p[i]);
		if(err.empty() && !P.same()) err = "unpacking modified the packed buffer";
	}
	free(t);
	return err;
}
// the single-block copy routines on exact-size windows
static std::string do_block(const KV& c) {
	std::string f = gs(c,"f");
	int M = gi(c,"M"), N = gi(c,"N"), m1 = gi(c,"m1"), n1 = gi(c,"n1"), m2 = gi(c,"m2"), mc = gi(c,"mc"), nc = gi(c,"nc"), mr = gi(c,"mr"), nr = gi(c,"nr");
	const float NaN = std::numeric_limits<float>::quiet_NaN();
	omp_set_num_threads(gi(c,"p"));
	// A-like: M x N matrix, rows packed (mc rows, nc columns); C-like: both
	Mat S((long)M*N); for(long i = 0; i < S.n; i++) S.p[i] = (float)(i+1); S.keep();
	std::string err;
	auto at = [&](int r, int q) { return r < M && q < N ? S.orig[(long)r*N+q] : 0.0f; };
	bool padm = m1 + m2 + mc > M, padn = n1 + nc > N;
	long n = (long) mc*nc;
	Mat P(n); for(long i = 0; i < n; i++) P.p[i] = NaN;
	long o = 0; std::vector<float> want(n);
	if(f == "A" || f == "Am" || f == "Ar") {
		if(f == "A") pack_ob_A_single_buf(S.p + (long)(m1+m2)*N + n1, P.p, M, N, m1, m2, mc, nc, mr, padm);
		else if(f == "Am") pack_ob_A_multiple_buf(S.p, P.p, M, N, m1, n1, m2, mc, nc, mr, padm);
		else { mr = mc; pack_A_mr_x_kc(S.p + (long)(m1+m2)*N + n1, P.p, N, nc, mc); }
		for(int a = 0; a < mc; a += mr) for(int k = 0; k < nc; k++) for(int i = 0; i < mr; i++) want[o++] = at(m1+m2+a+i, n1+k);
	} else if(f == "B" || f == "Bp" || f == "Br") {
		if(f == "B") pack_ob_B_single_buf(S.p + (long)m1*N + n1, P.p, M, N, n1, mc, nc, nr, padn);
		else if(f == "Bp") pack_ob_B_parallel(S.p + (long)m1*N + n1, P.p, M, N, n1, mc, nc, nr, padn);
		else { nr = nc; pack_B_nr_x_kc(S.p + (long)m1*N + n1, P.p, N, mc, nc); }
		for(int b = 0; b < nc; b += nr) for(int k = 0; k < mc; k++) for(int j = 0; j < nr; j++) want[o++] = at(m1+k, n1+b+j);
	} else {
		if(f == "C") pack_ob_C_single_buf(S.p + (long)(m1+m2)*N + n1, P.p, M, N, m1, n1, m2, mc, nc, mr, nr, padm, padn);
		else if(f == "Cm") pack_ob_C_multiple_buf(S.p, P.p, M, N, m1, n1, m2, mc, nc, mr, nr, padm || padn);
		for(int b = 0; b < nc; b += nr) for(int a = 0; a < mc; a += mr) for(int i = 0; i < mr; i++) for(int j = 0; j < nr; j++) want[o++] = at(m1+m2+a+i, n1+b+j);
		if(f == "U" || f == "Um") {
			for(long i = 0; i < n; i++) P.p[i] = -(float)(i+1);
			P.keep();
			if(f == "U") unpack_ob_C_single_buf(S.p + (long)(m1+m2)*N + n1, P.p, M, N, m1, n1, m2, mc, nc, mr, nr);
			else unpack_ob_C_multiple_buf(S.p, P.p, M, N, m1, n1, m2, mc, nc, mr, nr);
			std::vector<float> w(S.orig); o = 0;
			for(int b = 0; b < nc; b += nr) for(int a = 0; a < mc; a += mr) for(int i = 0; i < mr; i++) for(int j = 0; j < nr; j++, o++)
				if(m1+m2+a+i < M && n1+b+j < N) w[(long)(m1+m2+a+i)*N + n1+b+j] = -(float)(o+1);
			for(long i = 0; i < S.n; i++) if(S.p[i] != w[i]) return fmt("C[%ld]=%g want %g", i, S.p[i], w[i]);
			return P.same() ? "" : "packed block modified";
		}
	}
	for(long i = 0; i < n; i++) if(P.p[i] != want[i]) return fmt("packed[%ld]=%g want %g", i, P.p[i], want[i]);
	return S.same() ? "" : "source modified";
}

// ---- micro-kernels -------------------------------------------------------------
static std::string do_kernel(const KV& c) {
	int mr = gi(c,"mr"), nr = gi(c,"nr"), k = gi(c,"k"), via = gi(c,"via");
	RNG r(gi(c,"seed"));
	cake_cntx_t* x = mk_cntx(mr, nr, 32768, 1<<20, 8<<20, 4);
	Mat A((long)mr*k), B((long)nr*k), C((long)mr*nr);
	fill_small(r, A); fill_small(r, B); fill_small(r, C);
	g_mr = mr; g_nr = nr; g_otherkernel = 0;
	if(via) cake_sgemm_ukernel(A.p, B.p, C.p, mr, nr, k, x);
	else kernel_map[x->m_map][x->n_map](A.p, B.p, C.p, mr, nr, k);
	g_mr = 0;
	free(x);
	if(g_otherkernel && cls('X')) return fmt("kernel %dx%d called, the context names %dx%d", g_otherkernel/1000, g_otherkernel%1000, mr, nr);
	if(g_otherkernel || !cls('V')) return "";
	for(int i = 0; i < mr; i++) for(int j = 0; j < nr; j++) {
		double w = C.orig[i*nr+j]; for(int t = 0; t < k; t++) w += (double) A.orig[(long)t*mr+i]*B.orig[(long)t*nr+j];
		if(C.p[i*nr+j] != w) return fmt("C[%d][%d]=%g want %g", i, j, C.p[i*nr+j], w); }
	if(!A.same() || !B.same()) return "kernel modified an operand";
	return "";
}
void transpose(float* At, float* A, int M, int K);
// ---- transpose -----------------------------------------------------------------
static std::string do_transpose(const KV& c) {
	int K = gi(c,"K"), N = gi(c,"N"), Kt = gi(c,"Kt"), Nt = gi(c,"Nt");
	omp_set_num_threads(gi(c,"p"));
	Mat A((long)K*N), T((long)K*N);
	for(long i = 0; i < A.n; i++) { A.p[i] = (float)(i+1); T.p[i] = -1; }
	A.keep();
	if(gs(c,"f") == "naive") transpose(T.p, A.p, K, N);
	else transpose_mat(A.p, T.p, K, N, Kt, Nt);
	for(int k = 0; k < K; k++) for(int n = 0; n < N; n++) if(T.p[(long)n*K+k] != A.orig[(long)k*N+n]) return fmt("At[%d][%d]=%g want %g", n, k, T.p[(long)n*K+k], A.orig[(long)k*N+n]);
	return A.same() ? "" : "source modified";
}
// ---- checkers ------------------------------------------------------------------
static std::string do_checker(const KV& c) {
	int M = gi(c,"M"), N = gi(c,"N"), K = gi(c,"K"), bad = gi(c,"bad"), kind = gi(c,"kind"); std::string f = gs(c,"f");
	RNG r(gi(c,"seed"));
	omp_set_num_threads(3);
	const float vals[] = {0, 0.5f, -0.5f, 4e-3f, -4e-3f, std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), 1000, 1e-4f, -1e-4f};
	float d = vals[kind]; bool expect = !(fabs(d) <= 1e-3);
	Mat A((long)M*K), B((long)K*N), C((long)M*N); fill_small(r, A); fill_small(r, B);
	for(int i = 0; i < M; i++) for(int j = 0; j < N; j++) { double w = 0; for(int k = 0; k < K; k++) w += A.p[(long)i*K+k]*B.p[(long)k*N+j]; C.p[(long)i*N+j] = w; }
	Mat R(C.n); memcpy(R.p, C.p, C.n*sizeof(float));
	R.p[bad % R.n] += d; R.keep(); C.keep();
	bool got;
	if(f == "gemm") got = cake_sgemm_checker(A.p, B.p, R.p, N, M, K);
	else if(f == "equals") got = mat_equals(R.p, C.p, M, N);
	else { int p = 3; float* arr[3]; for(int q = 0; q < p; q++) { arr[q] = (float*) malloc(C.n*sizeof(float)); }
		for(long i = 0; i < C.n; i++) { arr[0][i] = (float) ri(r,-4,4); arr[1][i] = (float) ri(r,-4,4); arr[2][i] = C.p[i] - arr[0][i] - arr[1][i]; }
		got = add_checker(arr, R.p, M, N, p); for(int q = 0; q < p; q++) free(arr[q]); }
	if(got != expect) return fmt("checker said %s for an error of %g", got ? "wrong" : "correct", d);
	if(!A.same() || !B.same() || !C.same() || !R.same()) return "checker modified its inputs";
	return "";
}
// ---- contexts ------------------------------------------------------------------
static std::string do_cntx(const KV& c) {
	std::string f = gs(c,"f");
	if(f == "update") {
		int mr = gi(c,"mr"), nr = gi(c,"nr");
		cake_cntx_t t; memset(&t, 0x5a, sizeof t); t.L1 = 11; t.L2 = 12; t.L3 = 13; t.ncores = 14; t.alpha_n = 2.5;
		if(gi(c,"mr0") > 0) update_mr_nr(&t, gi(c,"mr0"), gi(c,"nr0"));   // the shape the context named before
		update_mr_nr(&t, mr, nr);
		if(cls('X')) { cake_cntx_t* x = mk_cntx(mr, nr, 11, 12, 13, 14); bool same = kernel_map[x->m_map][x->n_map] == kernel_map[t.m_map][t.n_map]; free(x);
		  Mat A(mr*5L), B(nr*5L), C((long)mr*nr); RNG q(7); fill_small(q,A); fill_small(q,B); fill_small(q,C);
		  g_mr = mr; g_nr = nr; g_otherkernel = 0;
		  kernel_map[t.m_map][t.n_map](A.p, B.p, C.p, mr, nr, 5);
		  g_mr = 0;
		  if(!same || g_otherkernel) return "the context names another kernel"; }
		if(!cls('X')) return "";
		if(t.mr != mr || t.nr != nr || t.L1 != 11 || t.L2 != 12 || t.L3 != 13 || t.ncores != 14 || t.alpha_n != 2.5) return "update_mr_nr changed other fields";
		KV k; k["mr"] = std::to_string(mr); k["nr"] = std::to_string(nr); k["k"] = "7"; k["via"] = "0"; k["seed"] = "1";
		return do_kernel(k);
	}
	int L2 = gi(c,"L2"), L3 = gi(c,"L3");
	// dirty heap so that fields the constructor leaves alone are visible
	for(int i = 0; i < 64; i++) { void* q = malloc(sizeof(cake_cntx_t)); memset(q, 0x5a, sizeof(cake_cntx_t)); free(q); }
	cake_cntx_t* t = f == "torch" ? cake_query_cntx_torch(L2, L3) : cake_query_cntx();
	std::string e;
	const int bad = 0x5a5a5a5a, bad2 = (int)0xbebebebe;
	int v[] = {t->mr, t->nr, t->m_map, t->n_map, t->L1, t->L2, t->L3, t->ncores};
	for(int i = 0; i < 8; i++) if(v[i] == bad || v[i] == bad2) e = fmt("context field %d not initialised", i);
	if(!cls('F')) e.clear();
	if(e.empty() && cls('F') && f == "torch" && (t->L2 != L2 || t->L3 != L3)) e = "cache sizes not taken from the caller";
	if(e.empty() && cls('F') && (t->ncores < 1 || t->L1 < 1 || t->mr < 1 || t->nr < 1 || !(t->alpha_n == 1.0))) e = fmt("bad field ncores=%d L1=%d alpha=%g", t->ncores, t->L1, t->alpha_n);
	if(e.empty() && cls('F') && f != "torch" && (t->L2 < 1 || t->L3 < 1)) e = "bad cache size";
	if(e.empty() && cls('X')) { cake_cntx_t u = *t; update_mr_nr(&u, t->mr, t->nr); if(u.m_map != t->m_map || u.n_map != t->n_map) e = "kernel index does not match the register tile"; }
	if(e.empty() && (cls('F') || cls('X'))) { int m = 13, n = 37, k = 29; Mat A(m*k), B(k*n), C(m*n); RNG r(3); fill_small(r,A); fill_small(r,B);
		cake_sgemm(A.p, B.p, C.p, m, n, k, 2, t);
		for(int i = 0; i < m && e.empty(); i++) for(int j = 0; j < n; j++) { double w = 0; for(int q = 0; q < k; q++) w += A.p[i*k+q]*B.p[q*n+j]; if(C.p[i*n+j] != w) { e = "wrong product with this context"; break; } } }
	free(t);
	return e;
}
static std::string do_grid(const KV& c) {
	int M = gi(c,"M"), N = gi(c,"N"), K = gi(c,"K"), p = gi(c,"p"), nc = gi(c,"ncores");
	int pn = grid_dims_2d(M, N, K, p, nc);
	if(pn < 1 || pn > p) return fmt("pn=%d outside [1,%d]", pn, p);
	if(p % pn) return fmt("pn=%d does not divide p=%d", pn, p);
	int opt = (int) roundf(sqrt(((double) p*N) / M)); opt = opt == 0 ? 1 : opt > p ? p : opt;
	for(int q = 1; q <= p; q++) if(p % q == 0 && abs(q - opt) < abs(pn - opt)) return fmt("pn=%d, factor %d is closer to the optimum %d", pn, q, opt);
	return "";
}
static std::string do_misc(const KV& c) {
	std::string f = gs(c,"f"); int a = gi(c,"a"), b = gi(c,"b"), d = gi(c,"d");
	if(f == "lcm") { int l = lcm(a, b); if(l < 1 || l % a || l % b) return fmt("lcm=%d", l); for(int q = 1; q < l; q++) if(q % a == 0 && q % b == 0) return fmt("lcm=%d but %d is smaller", l, q); return ""; }
	if(f == "clamp") { if(d < b) d = b; double v = clamp_val(a, b, d), w = a < b ? b : a > d ? d : a; return v == w ? "" : fmt("clamp=%g want %g", v, w); }
	if(f == "sched") { for(int s = 0; s < 4; s++) { enum sched r = set_schedule((enum sched) s, a, b, d); if(s != NA && r != (enum sched) s) return "explicit schedule not kept"; if(r == NA) return "no schedule chosen"; } return ""; }
	return "?";
}

static std::string run_kv(const std::string& mode, const KV& k) {
	if(mode == "prod") return do_prod_u(k);
	if(mode == "plan") return do_plan(k);
	if(mode == "pack") return do_pack(k);
	if(mode == "block") return do_block(k);
	if(mode == "kernel") return do_kernel(k);
	if(mode == "transpose") return do_transpose(k);
	if(mode == "checker") return do_checker(k);
	if(mode == "cntx") return do_cntx(k);
	if(mode == "grid") return do_grid(k);
	if(mode == "misc") return do_misc(k);
	fprintf(stderr, "bad mode %s\n", mode.c_str()); exit(3);
}
#ifndef VF_TSAN
extern long vf_live_mem, vf_live_file;
#else
static long vf_live_mem, vf_live_file;
#endif
static long g_run = 0;
static void run_case(const std::string& cs) {
	std::istringstream is(cs); std::string mode, t; is >> mode; KV k;
	while(is >> t) { size_t e = t.find('='); k[t.substr(0, e)] = t.substr(e+1); }
	if(g_state) { strncpy(g_state, cs.c_str(), 1000); g_state[1000] = 0; }
	long m0 = vf_live_mem, f0 = vf_live_file;
	std::string e = run_kv(mode, k);
	if(e.empty() && vf_live_mem != m0 && cls('R')) e = fmt("resource: %ld allocations more live after the call than before", vf_live_mem - m0);
	if(e.empty() && vf_live_file != f0 && cls('R')) e = fmt("resource: %ld streams left open", vf_live_file - f0);
	g_run++;
	if(!e.empty()) { printf("FAIL %s :: %s\n", cs.c_str(), e.c_str()); fflush(stdout); printf("RAN %ld\n", g_run); fflush(stdout); _exit(1); }
}
static const int MRS[] = {REPLAY_MRS}, NRS[] = {REPLAY_NRS};
static int pick(RNG& r, const int* a, int n) { return a[r() % n]; }
#define NEL(a) ((int)(sizeof(a)/sizeof(a[0])))
static int dim(RNG& r, int tile, int small) {   // sizes around tile boundaries
	int q = ri(r, 0, 9);
	if(q < 2) return ri(r, 1, 3);
	if(q < 6) { int t = tile*ri(r, 1, 5) + ri(r, -2, 2); return t < 1 ? 1 : t > small ? ri(r, 1, small) : t; }
	return ri(r, 1, small);
}
static std::string gen_prod(RNG& r, const std::string& api0, int variant, int big) {
	// variant: 0 plain, 1 prepacked, 2 beta, 3 automatic tiles, 4 repeated calls, 5 anything, 6 internal context
	std::string api = api0;
	if(api == "any") { const char* a[] = {"KMN","MKN","NKM","online","2d"}; api = a[r()%5]; }
	if(api == "1d") { const char* a[] = {"KMN","MKN","NKM"}; api = a[r()%3]; }
	if(api == "MN") { const char* a[] = {"MKN","NKM"}; api = a[r()%2]; }
	int mr = pick(r, MRS, NEL(MRS)), nr = pick(r, NRS, NEL(NRS));
	if(ri(r,0,2) == 0) { mr = MRS[0]; nr = NRS[0]; }
	int p = ri(r, 1, 6);
	int mc = mr*ri(r, 1, 3), nc = nr*ri(r, 1, 2), kc = ri(r, 1, 9);
	if(ri(r,0,3) == 0) kc = mc;
	int M = dim(r, p*mc, big), N = dim(r, nc, big), K = dim(r, (api == "MKN" || api == "NKM") ? p*kc : kc, big);
	if(ri(r,0,3) == 0) { M = dim(r, mr, big); N = dim(r, nr, big); }
	int pa = 0, pb = 0, beta = 0, L1 = 32768, L2 = 1<<20, L3 = 8<<20, ncores = 4, reps = 1, own = 0;
	int real = variant >= 7;      // 7: like 0 and 2 to 4, real values
	if(real) { variant = ri(r, 0, 3); if(variant == 1) variant = 4; if(ri(r,0,2) == 0) K = ri(r,1,4); }
	if(variant == 5) variant = ri(r, 0, 4);
	if(variant == 1) { int q = ri(r,1,3); pa = q&1; pb = q>>1; if((api == "KMN" || api == "MKN" || api == "NKM") && ri(r,0,3) == 0) { api = "NA"; if(ri(r,0,1)) mc = kc = nc = 0; } }
	if(variant == 2 && (api == "MKN" || api == "NKM")) beta = 1;
	if(variant == 3) { mc = kc = nc = 0; ncores = ri(r,1,8); L2 = ri(r, 8, 40)*1024; L3 = ri(r, 1, 64)*4096; L1 = ri(r, 2, 8)*1024*ri(r,1,8); if(ri(r,0,2) == 0) api = (api == "online" || api == "2d") ? api : "NA"; }
	if(variant == 4) reps = 2;
	if(variant == 6) { mc = kc = nc = 0; mr = MRS[0]; nr = NRS[0]; own = 1; reps = 2; if(ri(r,0,1)) api = (api == "online" || api == "2d") ? api : "NA"; }
	if(api == "2d" && variant != 3 && ri(r,0,4) == 0) { mc = kc = nc = 0; L2 = ri(r, 8, 40)*1024; L1 = ri(r,2,8)*1024; }
	return fmt("prod api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d pa=%d pb=%d beta=%d L1=%d L2=%d L3=%d ncores=%d reps=%d own=%d seed=%d%s",
		api.c_str(), M, N, K, p, mr, nr, mc, kc, nc, pa, pb, beta, L1, L2, L3, ncores, reps, own, ri(r,1,1000000), real ? " real=1" : "");
}
static std::string gen(const std::string& mode, RNG& r, long i) {
	auto colon = mode.find(':'); std::string m = mode.substr(0, colon), a = colon == std::string::npos ? "" : mode.substr(colon+1);
	if(m == "prod") { auto c2 = a.find(':'); int v = c2 == std::string::npos ? 0 : atoi(a.c_str()+c2+1); return gen_prod(r, a.substr(0, c2), v, i % 16 == 0 ? 150 : 60); }
	if(m == "plan") {
		const char* ap[] = {"KMN","MKN","NKM","NA","2d"}; std::string api = a == "2d" ? "2d" : a == "1d" ? ap[r()%4] : a == "" ? ap[r()%5] : a;
		int mr = pick(r, MRS, NEL(MRS)), nr = pick(r, NRS, NEL(NRS)), p = ri(r, 1, 16);
		int user = ri(r,0,1), mx = ri(r,0,2) == 0 ? 40000 : 900;
		int mc = user ? mr*ri(r,1,20) : 0, nc = user ? nr*ri(r,1,10) : 0, kc = user ? ri(r,1,200) : 0;
		return fmt("plan api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d L1=%d L2=%d L3=%d ncores=%d", api.c_str(),
			user ? dim(r, p*mc, mx) : ri(r,1,mx), user ? dim(r, nc, mx) : ri(r,1,mx), user ? dim(r, p*kc, mx) : ri(r,1,mx), p, mr, nr, mc, kc, nc,
			ri(r,0,9) == 0 ? 0 : 1024*(1 << ri(r,1,6)), ri(r,0,9) == 0 ? 256*ri(r,0,8) : 1024*(ri(r,0,1) ? ri(r,8,24) : (1 << ri(r,3,12))), 4096*(ri(r,0,1) ? ri(r,1,16) : (1 << ri(r,0,14))), ri(r,1,64));
	}
	if(m == "pack") {
		const char* ap[] = {"KMN","MKN","NKM"}; std::string api = ap[r()%3];
		int mr = pick(r, MRS, NEL(MRS)), nr = pick(r, NRS, NEL(NRS)), p = ri(r,1,6), mc = mr*ri(r,1,3), nc = nr*ri(r,1,2), kc = ri(r,1,9);
		int blis = (a != "C" && ri(r,0,3) == 0); if(blis) api = "KMN";
		return fmt("pack what=%s api=%s M=%d N=%d K=%d p=%d mr=%d nr=%d mc=%d kc=%d nc=%d blis=%d", a.c_str(), api.c_str(),
			dim(r, p*mc, 120), dim(r, nc, 120), dim(r, api == "KMN" ? kc : p*kc, 60), p, mr, nr, mc, kc, nc, blis);
	}
	if(m == "block") {
		const char* fA[] = {"A","Am","Ar"}; const char* fB[] = {"B","Bp","Br"}; const char* fC[] = {"C","Cm","U","Um"};
		std::string f = a == "A" ? fA[r()%3] : a == "B" ? fB[r()%3] : fC[r()%4];
		int mr = pick(r, MRS, NEL(MRS)), nr = pick(r, NRS, NEL(NRS)); int mu = ri(r,1,4), nu = ri(r,1,3);
		int m1 = ri(r,0,2)*mr, m2 = ri(r,0,2)*mr, n1 = ri(r,0,2)*(ri(r,0,1) ? nr : 1); int mc = mr*mu, nc = nr*nu;
		int M, N;
		if(f[0] == 'A') { nc = ri(r,0,9); N = n1 + nc + ri(r,0,4); M = m1 + m2 + mc + (ri(r,0,1) ? ri(r,0,5) : -ri(r,0,mr-1)); if(f == "Ar") { mc = mr; M = m1+m2+mc+ri(r,0,4); } }
		else if(f[0] == 'B') { mc = ri(r,0,9); m2 = 0; M = m1 + mc + ri(r,0,3); N = n1 + nc + (ri(r,0,1) ? ri(r,0,5) : -ri(r,0,nr-1)); if(f == "Br") { nc = nr; N = n1+nc+ri(r,0,4); } }
		else { M = m1 + m2 + mc + (ri(r,0,1) ? ri(r,0,5) : -ri(r,0,mr-1)); N = n1 + nc + (ri(r,0,1) ? ri(r,0,5) : -ri(r,0,nr-1)); }
		if(M < 1) M = 1; if(N < 1) N = 1;
		return fmt("block f=%s M=%d N=%d m1=%d n1=%d m2=%d mc=%d nc=%d mr=%d nr=%d p=%d", f.c_str(), M, N, m1, n1, m2, mc, nc, mr, nr, ri(r,1,4));
	}
	if(m == "kernel") { int n = NEL(MRS)*NEL(NRS); int s = i % n; return fmt("kernel mr=%d nr=%d k=%d via=%d seed=%d", MRS[s/NEL(NRS)], NRS[s%NEL(NRS)], (i/n) % 5 == 4 ? ri(r,67,1500) : (int)((i/n) % 67), (int)((i/n/67) % 2), ri(r,1,1000000)); }
	if(m == "transpose") return fmt("transpose f=%s K=%d N=%d Kt=%d Nt=%d p=%d", i % 9 == 8 ? "naive" : "mat", dim(r,8,90), dim(r,8,90), ri(r,1,70), ri(r,1,70), ri(r,1,5));
	if(m == "checker") { const char* f[] = {"gemm","equals","add"}; return fmt("checker f=%s M=%d N=%d K=%d bad=%d kind=%d seed=%d", f[r()%3], ri(r,1,9), ri(r,1,9), ri(r,1,6), ri(r,0,100), (int)(i % 10), ri(r,1,1000000)); }
	if(m == "cntx") { int q = a == "new" ? i % 2 : i % 6; if(q == 0) return fmt("cntx f=torch L2=%d L3=%d", ri(r,4,4096)*1024, ri(r,16,65536)*1024); if(q == 1) return "cntx f=query L2=0 L3=0"; return fmt("cntx f=update mr=%d nr=%d mr0=%d nr0=%d", pick(r, MRS, NEL(MRS)), pick(r, NRS, NEL(NRS)), ri(r,0,3) ? pick(r, MRS, NEL(MRS)) : 0, pick(r, NRS, NEL(NRS))); }
	if(m == "grid") return fmt("grid M=%d N=%d K=%d p=%d ncores=%d", ri(r,1,ri(r,0,1)?10:4000), ri(r,1,ri(r,0,1)?10:4000), ri(r,1,100), ri(r,1,32), ri(r,1,32));
	if(m == "misc") { const char* f[] = {"lcm","clamp","sched"}; return fmt("misc f=%s a=%d b=%d d=%d", a == "sched" ? "sched" : a == "help" ? f[r()%2] : f[r()%3], ri(r,1,ri(r,0,3)?60:700), ri(r,1,ri(r,0,3)?60:700), ri(r,61,1800)); }
	fprintf(stderr, "bad mode %s\n", mode.c_str()); exit(3);
}
int main(int argc, char** argv) {
	setvbuf(stdout, NULL, _IOLBF, 0);
	g_classes = getenv("VF_CLASSES");
	if(argc >= 3 && !strcmp(argv[1], "case")) { run_case(argv[2]); printf("RAN %ld\n", g_run); return 0; }
	if(argc < 5) return 3;
	int fd = open(argv[4], O_RDWR|O_CREAT|O_TRUNC, 0644);
	if(fd < 0 || ftruncate(fd, 4096)) return 3;
	g_state = (char*) mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
	RNG r(atoi(argv[2])*2654435761u + 12345);
	std::set<std::string> seen; long n = atol(argv[3]); double limit = argc > 5 ? atof(argv[5]) : 1e9;
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	std::string last;
	for(long i = 0; i < n; i++) {
		std::string cs = gen(argv[1], r, i);
		if(seen.insert(cs).second) { run_case(cs); if(i < 3) printf("SAMPLE %s\n", cs.c_str()); }
		clock_gettime(CLOCK_MONOTONIC, &t1);
		if(t1.tv_sec - t0.tv_sec + 1e-9*(t1.tv_nsec - t0.tv_nsec) > limit) break;
	}
	printf("RAN %ld\n", g_run);
	std::string hf = std::string(argv[4]) + ".h";
	if(FILE* f = fopen(hf.c_str(), "wb")) { for(auto& c : seen) { unsigned long long h = std::hash<std::string>()(c); fwrite(&h, 8, 1, f); } fclose(f); }
	return 0;
}
