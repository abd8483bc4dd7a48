// exhaustive split of the double values by exponent field, so that each class is a small bit-vector problem
#pragma once
// K==0: any value; otherwise one class of an exhaustive split of the double values by exponent field: 1..2046 exactly that field, -1 everything below 1021, -2 everything above 1075
template<class T,int K> T xin(){ if constexpr(K==0) return v_in<T>(); else { unsigned long long b=v_in<unsigned long long>(); if constexpr(K>0) b=(b&0x800fffffffffffffull)|(static_cast<unsigned long long>(K)<<52); else if constexpr(K==-1) v_requires(((b>>52)&0x7ff)<1021); else v_requires(((b>>52)&0x7ff)>1075); return std::bit_cast<double>(b); } }
#define X10(M,d) M(d##0) M(d##1) M(d##2) M(d##3) M(d##4) M(d##5) M(d##6) M(d##7) M(d##8) M(d##9)
#define XALL(M) XIN(M) M(1075) M(-2)
#define XIN(M) M(-1) M(1021) M(1022) M(1023) M(1024) M(1025) M(1026) M(1027) M(1028) M(1029) X10(M,103) X10(M,104) X10(M,105) X10(M,106) M(1070) M(1071) M(1072) M(1073) M(1074)
