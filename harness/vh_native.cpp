// native replay runtime: prog <harness> <a0> <a1> <input file>
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <map>
#include <string>
#include <vector>

static std::map<std::string, void (*)(int, int)> &regs() { static std::map<std::string, void (*)(int, int)> r; return r; }
vh_reg::vh_reg(const char *n, void (*f)(int, int)) { regs()[n] = f; }

struct H { size_t off, size; uint64_t bits; };
static std::map<std::string, uint64_t> in;
static std::map<std::string, std::vector<H>> hv;
static std::map<std::string, int> cnt;
static int failed = 0;
static bool quiet = false;

static std::string key(const char *n) {
	int k = cnt[n]++;
	if (k == 0) return n;
	return std::string(n) + "~" + std::to_string(k);
}
static uint64_t get(const char *n) { auto it = in.find(key(n)); return it == in.end() ? 0 : it->second; }

extern "C" {
float vh_f32(const char *n) { uint32_t b = (uint32_t)get(n); float f; memcpy(&f, &b, 4); return f; }
double vh_f64(const char *n) { uint64_t b = get(n); double f; memcpy(&f, &b, 8); return f; }
uint8_t vh_u8(const char *n) { return (uint8_t)get(n); }
uint16_t vh_u16(const char *n) { return (uint16_t)get(n); }
uint32_t vh_u32(const char *n) { return (uint32_t)get(n); }
uint64_t vh_u64(const char *n) { return get(n); }
int32_t vh_i32(const char *n) { return (int32_t)(uint32_t)get(n); }
bool vh_bool(const char *n) { return get(n) & 1; }
void vh_havoc(void *p, const char *, const char *n) {
	for (const H &h : hv[key(n)]) memcpy((char *)p + h.off, &h.bits, h.size);
}
void vh_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); exit(3); } }
void vh_assert(bool c, const char *l) { if (!quiet) printf("A %s %d\n", l, (int)c); if (!c) { printf("FAIL %s\n", l); failed = 1; } }
void vh_assert_eq(float a, float b, double tol, const char *l) {
	uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4);
	if (!quiet) printf("E %s %08x %08x\n", l, x, y);
	bool bad = (isnan(a) || isnan(b)) ? !(isnan(a) && isnan(b)) || true : !(a == b || fabs((double)a - (double)b) <= tol * (1.0 + fmin(fabs((double)a), fabs((double)b))));
	if (bad) { printf("FAIL %s got=%.9g want=%.9g\n", l, (double)a, (double)b); failed = 1; }
}
void vh_assert_eqd(double a, double b, double tol, const char *l) {
	uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
	if (!quiet) printf("E %s %016llx %016llx\n", l, (unsigned long long)x, (unsigned long long)y);
	bool bad = (isnan(a) || isnan(b)) ? true : !(a == b || fabs(a - b) <= tol * (1.0 + fmin(fabs(a), fabs(b))));
	if (bad) { printf("FAIL %s got=%.17g want=%.17g\n", l, a, b); failed = 1; }
}
void vh_cover(const char *) {}
}

int main(int argc, char **argv) {
	if (argc < 5) { fprintf(stderr, "usage: %s harness a0 a1 inputs\n", argv[0]); return 2; }
	FILE *f = fopen(argv[4], "r");
	if (!f) { perror(argv[4]); return 2; }
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		char kind = line[0];
		if (kind == 'V') {
			char nm[2048]; unsigned long long b;
			if (sscanf(line + 2, "%2047s %llx", nm, &b) == 2) in[nm] = b;
		} else if (kind == 'H') {
			char nm[2048]; unsigned long long off, sz, b;
			if (sscanf(line + 2, "%2047s %llu %llu %llx", nm, &off, &sz, &b) == 4) hv[nm].push_back({(size_t)off, (size_t)sz, b});
		}
	}
	fclose(f);
	auto it = regs().find(argv[1]);
	if (it == regs().end()) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
	quiet = getenv("VH_QUIET") != nullptr;
	it->second(atoi(argv[2]), atoi(argv[3]));
	printf("DONE %d\n", failed);
	return failed;
}
