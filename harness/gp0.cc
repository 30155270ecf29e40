#include "gp_impl.hpp"
namespace vm { std::unique_ptr<Search> make0(const Cfg &c,Env *e,const CMASolutions *f) { return make_t<GenoPheno<NoBoundStrategy>>(c,e,f); } CMASolutions call0(const Cfg &c,Env *e,const CMASolutions *f) { return call_t<GenoPheno<NoBoundStrategy>>(c,e,f); } }
