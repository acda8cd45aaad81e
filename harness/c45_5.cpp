#include "c45.hpp"
namespace hx {
template <unsigned B> void part(mc::Exec& e) { payloads<B>(e); }
template void part<10>(mc::Exec&);
template void part<11>(mc::Exec&);
}
