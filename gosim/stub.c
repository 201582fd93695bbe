// The simulated native library. Contexts are ids inside a reserved address range; every entry and exit
// goes to the Go simulator, which decides what happens meanwhile (other goroutines, garbage collection).
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include "c_eth_kzg.h"
extern void sim_enter(int kind, uint64_t ctx, uint64_t arg);   // exported by Go
extern int sim_outcome(uint64_t ctx, uint64_t blobtag, uint8_t *out48, char *msg, int msgmax);
extern void sim_exit(int kind, uint64_t ctx);
extern void sim_msg_freed(uint64_t p);
extern void sim_msg_made(uint64_t p);
static uint64_t next_id;
static char *arena;
#define MAXCTX 4096
struct DASContext *eth_kzg_das_context_new(bool p, uint32_t n) {
  if (!arena) arena = mmap(0, MAXCTX * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint64_t id = ++next_id;
  sim_enter(0, id, ((uint64_t)p << 32) | n);
  sim_exit(0, id);
  return (struct DASContext *)(arena + id * 4096);
}
static uint64_t id_of(const struct DASContext *c) {
  if (!c) return 0;
  uint64_t d = (char *)c - arena;
  if (!arena || d % 4096 || d / 4096 > next_id || d / 4096 == 0) return UINT64_MAX;
  return d / 4096;
}
void eth_kzg_das_context_free(struct DASContext *c) { sim_enter(1, id_of(c), 0); sim_exit(1, id_of(c)); }
static uint64_t fnv(const uint8_t *b, uint64_t n) { uint64_t h = 0xcbf29ce484222325ull; for (uint64_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; } return h; }
#define NMSG 65536
static char *msgs[NMSG]; static int nmsgs;
struct CResult eth_kzg_blob_to_kzg_commitment(const struct DASContext *c, const uint8_t *blob, uint8_t *out) {
  uint64_t id = id_of(c);
  uint64_t h0 = fnv(blob, 131072);
  sim_enter(2, id, h0);
  uint8_t o[48]; char m[512];
  int e = sim_outcome(id, h0, o, m, sizeof m);
  sim_exit(2, id);
  if (fnv(blob, 131072) != h0) { fprintf(stderr, "blob changed during the call\n"); abort(); }
  struct CResult r = {Ok, 0};
  if (!e) memcpy(out, o, 48);
  else { r.status = Err; r.error_msg = strdup(m); sim_msg_made((uint64_t)r.error_msg); }
  return r;
}
void eth_kzg_free_error_message(char *p) { sim_msg_freed((uint64_t)p); if (p) memset(p, 0xdd, 1); }
static void unsup(const char *w) { fprintf(stderr, "unsupported native call %s\n", w); _Exit(77); }
struct CResult eth_kzg_compute_cells_and_kzg_proofs(const struct DASContext *ctx, const uint8_t *blob, uint8_t **a, uint8_t **b) { unsup("compute"); struct CResult r = {Err, 0}; return r; }
struct CResult eth_kzg_verify_cell_kzg_proof_batch(const struct DASContext *ctx, uint64_t n0, const uint8_t *const *c, uint64_t n1, const uint64_t *i, uint64_t n2, const uint8_t *const *e, uint64_t n3, const uint8_t *const *p, bool *v) { unsup("verify"); struct CResult r = {Err, 0}; return r; }
struct CResult eth_kzg_recover_cells_and_proofs(const struct DASContext *ctx, uint64_t n0, const uint8_t *const *c, uint64_t n1, const uint64_t *i, uint8_t **a, uint8_t **b) { unsup("recover"); struct CResult r = {Err, 0}; return r; }
uint64_t eth_kzg_constant_bytes_per_cell(void) { return 2048; }
uint64_t eth_kzg_constant_bytes_per_proof(void) { return 48; }
uint64_t eth_kzg_constant_cells_per_ext_blob(void) { return 128; }
