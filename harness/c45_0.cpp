#include "c45.hpp"
namespace hx {
template <unsigned B> void part(mc::Exec& e) { payloads<B>(e); }
template void part<0>(mc::Exec&);
template void part<1>(mc::Exec&);
}
