#pragma once
#include <cstdint>
#include <cstddef>
namespace arolla { template<class W> void SetBit(W* p, size_t i){ p[i/(8*sizeof(W))] |= W{1} << (i%(8*sizeof(W))); } 
template<class W> bool GetBit(const W* p, size_t i){ return p[i/(8*sizeof(W))]>>(i%(8*sizeof(W)))&1;} }
