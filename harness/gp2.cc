#include "gp_impl.hpp"
namespace vm { std::unique_ptr<Search> make2(const Cfg &c,Env *e,const CMASolutions *f) { return make_t<GenoPheno<NoBoundStrategy,linScalingStrategy>>(c,e,f); } CMASolutions call2(const Cfg &c,Env *e,const CMASolutions *f) { return call_t<GenoPheno<NoBoundStrategy,linScalingStrategy>>(c,e,f); } }
