#pragma once
#include <stddef.h>
#include <stdint.h>
enum { RT_P_ATOMIC, RT_P_RMW, RT_P_ALLOC, RT_P_FUTEX, RT_P_BLOCK, RT_P_YIELD, RT_P_SPAWN, RT_P_USER, RT_P_IO, RT_NPOINT };
enum { RT_SERIAL, RT_RANDOM, RT_PCT };
enum { RT_DEADLOCK = 1, RT_STEPS = 2 };
enum {
  RT_F_SPURIOUS, RT_F_WAKE_ORDER, RT_F_STALL, RT_F_RANDOM, RT_F_CLOCK_REAL, RT_F_CLOCK_MONO,
  RT_F_OPEN, RT_F_READ_ERR, RT_F_READ_SHORT, RT_F_READ_EINTR, RT_F_WRITE_ERR, RT_F_WRITE_SHORT, RT_F_WRITE_EINTR,
  RT_F_ENOSPC, RT_F_CLOSE, RT_F_FSYNC, RT_F_RENAME, RT_F_CORRUPT, RT_F_CRASH, RT_F_CB_ERR, RT_F_CB_PANIC, RT_F_USER1, RT_F_USER2, RT_F_USER3,
  RT_NFAULT
};
#define RT_MAXREC 65536
#define RT_MAXPCT 8
typedef struct { uint64_t at; uint32_t kind; uint32_t pad; uint64_t val; } rt_rec;
typedef struct {
  uint64_t seed;
  uint64_t max_steps;
  uint64_t tick_ns, mono0, real0, mono_granularity, real_granularity;
  uint64_t disk_capacity;
  int32_t replay, strategy, pct_d, p_stall;
  uint64_t pct_at[RT_MAXPCT];
  uint32_t p_switch[RT_NPOINT];
  uint32_t p_fault[RT_NFAULT];
} rt_config;
typedef struct {
  uint64_t steps, switches, preempt, futex_waits, clock_reads, sim_ns, fault_queries, nthreads, rec_overflow, io_calls;
  uint64_t points[RT_NPOINT];
  uint64_t fired[RT_NFAULT];
} rt_stats;
