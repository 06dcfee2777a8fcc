// Stand-in for RELIC's generated configuration: BN-P254 sizes, ALLOC = AUTO.
#pragma once
#define RLC_BN_BITS 1024
#define RLC_FP_BYTES 32
#define ALLOC 1
#define AUTO 1
