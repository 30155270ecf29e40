#include "gp_impl.hpp"
namespace vm { std::unique_ptr<Search> make3(const Cfg &c,Env *e,const CMASolutions *f) { return make_t<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(c,e,f); } CMASolutions call3(const Cfg &c,Env *e,const CMASolutions *f) { return call_t<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(c,e,f); } }
