// counter-based streams: a number depends on (seed, subsequence, position) and on nothing else
#pragma once
#include "curand.h"
namespace cuemu { uint32_t randomBits(uint64_t seed, uint64_t sub, uint64_t pos, int kind); float uniformOf(uint64_t seed, uint64_t sub, uint64_t pos, int kind); float normalOf(uint64_t seed, uint64_t sub, uint64_t pos, int kind); }
template <int K> struct CuemuRand { uint64_t seed, sub, pos; };
typedef CuemuRand<0> curandStateXORWOW_t; typedef curandStateXORWOW_t curandState; typedef curandState curandState_t;
typedef CuemuRand<1> curandStatePhilox4_32_10_t;
template <int K> void curand_init(unsigned long long seed, unsigned long long sub, unsigned long long off, CuemuRand<K>* s) { s->seed = seed; s->sub = sub; s->pos = off; }
template <int K> unsigned curand(CuemuRand<K>* s) { return cuemu::randomBits(s->seed, s->sub, s->pos++, K); }
template <int K> float curand_uniform(CuemuRand<K>* s) { return cuemu::uniformOf(s->seed, s->sub, s->pos++, K); }
template <int K> float curand_normal(CuemuRand<K>* s) { return cuemu::normalOf(s->seed, s->sub, s->pos++, K); }
template <int K> float4 curand_uniform4(CuemuRand<K>* s) { float4 r; r.x = curand_uniform(s); r.y = curand_uniform(s); r.z = curand_uniform(s); r.w = curand_uniform(s); return r; }
template <int K> float4 curand_normal4(CuemuRand<K>* s) { float4 r; r.x = curand_normal(s); r.y = curand_normal(s); r.z = curand_normal(s); r.w = curand_normal(s); return r; }
