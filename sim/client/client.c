/* A C program's view of the library: everything goes through the published header. */
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
#include "credential.h"

static buf_t dispatch(int f, const uint8_t **p, const uint64_t *n, const uint8_t *s)
{
    switch (f) {
    case 0:  return system_parameters_create(s);
    case 1:  return issuer_create(p[0], n[0], s);
    case 2:  return issuer_new(p[0], n[0], p[1], n[1]);
    case 3:  return issuer_get_issuer_parameters(p[0], n[0]);
    case 4:  return issuer_issue(p[0], n[0], p[1], n[1], s);
    case 5:  return issuer_verify(p[0], n[0], p[1], n[1]);
    case 6:  return issuer_verify_roster_membership(p[0], n[0], p[1], n[1]);
    case 7:  return user_obtain_finish(p[0], n[0], p[1], n[1], p[2], n[2], p[3], n[3]);
    case 8:  return user_show(p[0], n[0], p[1], n[1], s);
    case 9:  return roster_entry_commitment_create(p[0], n[0], p[1], n[1], s);
    case 10: return roster_entry_commitment_remove_opening(p[0], n[0]);
    default: return roster_entry_commitment_open(p[0], n[0], p[1], n[1], p[2], n[2]);
    }
}

void vp_client_call(int f, const uint8_t **p, const uint64_t *n, const uint8_t *s, uint64_t *len, const uint8_t **ptr)
{
    buf_t b = dispatch(f, p, n, s);
    *len = b.len;
    *ptr = b.ptr;
}

/* The documented length of each function's result, and last that of a seed. */
uint64_t vp_client_length(int f)
{
    switch (f) {
    case 0:  return LENGTH_SYSTEM_PARAMETERS;
    case 1:  return LENGTH_ISSUER_KEYPAIR;
    case 2:  return LENGTH_ISSUER;
    case 3:  return LENGTH_ISSUER_PARAMETERS;
    case 4:  return LENGTH_CREDENTIAL_ISSUANCE;
    case 5:  return LENGTH_VERIFIED_CREDENTIAL;
    case 6:  return LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING;
    case 7:  return LENGTH_USER;
    case 8:  return LENGTH_CREDENTIAL_PRESENTATION;
    case 9:  return LENGTH_ROSTER_ENTRY_COMMITMENT;
    case 10: return LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING;
    case 11: return 1;
    default: return LENGTH_SEED;
    }
}
