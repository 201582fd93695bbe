/* The documented C interface, as declared for the simulated native library. */
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
typedef enum CResultStatus { Ok, Err } CResultStatus;
typedef struct DASContext DASContext;
typedef struct CResult { enum CResultStatus status; char *error_msg; } CResult;
struct DASContext *eth_kzg_das_context_new(bool use_precomp, uint32_t num_threads);
void eth_kzg_das_context_free(struct DASContext *ctx);
void eth_kzg_free_error_message(char *c_message);
struct CResult eth_kzg_blob_to_kzg_commitment(const struct DASContext *ctx, const uint8_t *blob, uint8_t *out);
struct CResult eth_kzg_compute_cells_and_kzg_proofs(const struct DASContext *ctx, const uint8_t *blob, uint8_t **out_cells, uint8_t **out_proofs);
struct CResult eth_kzg_verify_cell_kzg_proof_batch(const struct DASContext *ctx, uint64_t commitments_length, const uint8_t *const *commitments, uint64_t cell_indices_length, const uint64_t *cell_indices, uint64_t cells_length, const uint8_t *const *cells, uint64_t proofs_length, const uint8_t *const *proofs, bool *verified);
struct CResult eth_kzg_recover_cells_and_proofs(const struct DASContext *ctx, uint64_t cells_length, const uint8_t *const *cells, uint64_t cell_indices_length, const uint64_t *cell_indices, uint8_t **out_cells, uint8_t **out_proofs);
uint64_t eth_kzg_constant_bytes_per_cell(void);
uint64_t eth_kzg_constant_bytes_per_proof(void);
uint64_t eth_kzg_constant_cells_per_ext_blob(void);
