#pragma once
#include <stdint.h>
#include <stddef.h>
#define SIM_MAX_THREADS 4096
#define SIM_MAX_DEC (1 << 19)
#define SIM_MAX_ENT 4096
enum { P_SPAWN, P_JOIN, P_FUTEX, P_ALLOC, P_CLOCK, P_IO, P_ATOMIC, P_YIELD, P_N };
enum { SIM_RANDOM, SIM_LOWEST, SIM_HIGHEST, SIM_PRIO };
enum { F_SPAWN, F_ALLOC, F_ALLOC_BIG, F_SPURIOUS, F_EINTR_WAIT, F_STALL, F_MONO_JUMP, F_REAL_JUMP,
       F_GETRANDOM, F_GETRANDOM_SHORT, F_ENT_OPEN, F_ENT_EINTR, F_ENT_EIO, F_ENT_EOF, F_ENT_SHORT,
       F_READ_EINTR, F_READ_EIO, F_READ_SHORT, F_STDOUT, F_STDERR, F_N = 32 };
typedef struct { uint32_t kind, every; uint64_t n, arg; } sim_fault;
typedef struct { uint64_t step; int64_t tid; } sim_dec;
typedef struct {
    uint64_t seed, entropy_seed, entropy_fork, hash_seed;
    uint64_t keep_seed, keep_mask, keep_gran; // windows (of keep_gran bytes) of the entropy stream taken from another seed
    uint32_t preempt;      // probability of a switch at a scheduling point, in 2^-32
    uint32_t policy;
    uint32_t explicit_mode; // 1: only the listed decisions, otherwise run until blocked, lowest id first
    uint32_t n_dec; const sim_dec *dec;
    uint32_t n_faults; const sim_fault *faults;
    uint64_t max_steps, big_alloc, garbage;
    int32_t cpus, cpuinfo_err;
    uint32_t has_stall, has_alloc;
    const char *cpuinfo;
    char watch_prefix[256];
} sim_config;
typedef struct {
    uint64_t steps, switches, digest, creates, waits, allocs, big_allocs, clock_reads, entropy_bytes;
    uint64_t ent_opens, ent_reads, file_reads, out_writes, out_bytes[2], time_skips, max_live, real_create_fail;
    int64_t sim_ns;
    uint64_t points[P_N];
    uint64_t injected[F_N];
    int32_t died, dec_overflow;
    char text[4096];
    uint32_t n_ent; unsigned char ent[SIM_MAX_ENT];
    uint32_t n_dec;
    uint32_t result_len;
    char result[1 << 20];
    sim_dec dec[SIM_MAX_DEC];
} sim_stats;
