#pragma once
#include "term.h"
// 0 proved, 1 refuted (model), -1 undecided
int ibb(const std::vector<T>&hyp,T goal,T var,double seconds,int threads,uint64_t&model,std::string&note,uint64_t&boxes);
