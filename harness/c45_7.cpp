#include "c45.hpp"
namespace hx {
template <unsigned B> void part(mc::Exec& e) { payloads<B>(e); }
template void part<14>(mc::Exec&);
template void part<15>(mc::Exec&);
}
