// The templates of the library work with every type a user may put into them.
#include "c45.hpp"
int user::g_new = 0;
namespace hx {
template <unsigned B> void part(mc::Exec& e);
#define X(b) extern template void part<b>(mc::Exec&);
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
MC_SECTION(payloads, true) { switch (e.choose(16)) {
#define Y(b) case b: part<b>(e); break;
Y(0) Y(1) Y(2) Y(3) Y(4) Y(5) Y(6) Y(7) Y(8) Y(9) Y(10) Y(11) Y(12) Y(13) Y(14) default: part<15>(e); } }
}
