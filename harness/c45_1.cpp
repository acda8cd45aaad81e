#include "c45.hpp"
namespace hx {
template <unsigned B> void part(mc::Exec& e) { payloads<B>(e); }
template void part<2>(mc::Exec&);
template void part<3>(mc::Exec&);
}
