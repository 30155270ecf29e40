#include "gp_impl.hpp"
namespace vm { std::unique_ptr<Search> make1(const Cfg &c,Env *e,const CMASolutions *f) { return make_t<GenoPheno<pwqBoundStrategy>>(c,e,f); } CMASolutions call1(const Cfg &c,Env *e,const CMASolutions *f) { return call_t<GenoPheno<pwqBoundStrategy>>(c,e,f); } }
