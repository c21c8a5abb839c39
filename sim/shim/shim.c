/* The C caller of the simulated host: compiled against the generated header, by field and constant name only. */
#include <string.h>
#include AGA8_HEADER

static void fill(struct Composition *c, const double *x) {
  memset(c, 0xEE, sizeof *c);
  c->methane = x[0]; c->nitrogen = x[1]; c->carbon_dioxide = x[2]; c->ethane = x[3]; c->propane = x[4];
  c->isobutane = x[5]; c->n_butane = x[6]; c->isopentane = x[7]; c->n_pentane = x[8]; c->hexane = x[9];
  c->heptane = x[10]; c->octane = x[11]; c->nonane = x[12]; c->decane = x[13]; c->hydrogen = x[14];
  c->oxygen = x[15]; c->carbon_monoxide = x[16]; c->water = x[17]; c->hydrogen_sulfide = x[18];
  c->helium = x[19]; c->argon = x[20];
}
static int ccode(enum CompositionError e) {
  if (e == CompositionError_Ok) return 0;
  if (e == CompositionError_Empty) return 1;
  if (e == CompositionError_BadSum) return 2;
  return 99;
}
static int dcode(enum DensityError e) {
  if (e == DensityError_Ok) return 0;
  if (e == DensityError_IterationFail) return 1;
  if (e == DensityError_PressureTooLow) return 2;
  return 99;
}
static void props(const struct Properties *p, double *o) {
  o[0] = p->d; o[1] = p->mm; o[2] = p->z; o[3] = p->dp_dd; o[4] = p->d2p_dd2; o[5] = p->dp_dt; o[6] = p->u;
  o[7] = p->h; o[8] = p->s; o[9] = p->cv; o[10] = p->cp; o[11] = p->w; o[12] = p->g; o[13] = p->jt; o[14] = p->kappa;
}
/* the bytes around an output variable belong to the caller */
static int fence(const unsigned char *p, unsigned v) {
  for (int i = 0; i < 16; i++) if (p[i] != (unsigned char)v) return 0;
  return 1;
}
/* a read-only copy next to a forbidden page, or just the same */
const struct Composition *sim_lend(const struct Composition *c);
void sim_return(const struct Composition *own, const struct Composition *lent);
/* poison: the caller's output variable holds arbitrary bytes before the call */
#define API(P, S) \
  void *shim_##P##_new(void) { return P##_new(); } \
  void shim_##P##_free(void *h) { P##_free((struct S *)h); } \
  int shim_##P##_set_composition(void *h, const double *x, unsigned poison) { \
    struct Composition c, k; struct { unsigned char a[16]; enum CompositionError e; unsigned char b[16]; } s; \
    fill(&c, x); fill(&k, x); \
    memset(&s, (int)poison, sizeof s); \
    const struct Composition *l = sim_lend(&c); \
    P##_set_composition((struct S *)h, l, &s.e); \
    int kept = !memcmp(l, &k, sizeof c); \
    sim_return(&c, l); \
    if (!kept || memcmp(&c, &k, sizeof c)) return 97; \
    if (!fence(s.a, poison) || !fence(s.b, poison)) return 98; \
    return ccode(s.e); } \
  void shim_##P##_set_pressure(void *h, double v) { P##_set_pressure((struct S *)h, v); } \
  double shim_##P##_get_pressure(void *h) { return P##_get_pressure((struct S *)h); } \
  void shim_##P##_set_temperature(void *h, double v) { P##_set_temperature((struct S *)h, v); } \
  double shim_##P##_get_temperature(void *h) { return P##_get_temperature((struct S *)h); } \
  void shim_##P##_set_density(void *h, double v) { P##_set_density((struct S *)h, v); } \
  double shim_##P##_get_density(void *h) { return P##_get_density((struct S *)h); } \
  void shim_##P##_get_properties(void *h, double *o) { \
    struct Properties p = P##_get_properties((const struct S *)h); props(&p, o); } \
  double shim_##P##_calculate_pressure(void *h) { return P##_calculate_pressure((struct S *)h); } \
  double shim_##P##_calculate_molar_mass(void *h) { return P##_calculate_molar_mass((struct S *)h); } \
  int shim_##P##_calculate_density(void *h, unsigned poison) { \
    struct { unsigned char a[16]; enum DensityError e; unsigned char b[16]; } s; \
    memset(&s, (int)poison, sizeof s); \
    P##_calculate_density((struct S *)h, &s.e); \
    if (!fence(s.a, poison) || !fence(s.b, poison)) return 98; \
    return dcode(s.e); } \
  void shim_##P##_calculate_properties(void *h) { P##_calculate_properties((struct S *)h); }
API(aga8, Detail)
API(gerg, Gerg2008)
